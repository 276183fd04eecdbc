"""A02: flow data on different parts of a lattice is averaged on the union of them."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub
from pbt.oracle import same, same_ints, same_pair

from droplets.average import average_data, average_flow_data
from droplets.flow import FlowData

ID = 'A02'
RULE = (
    "1 to 5 rectangular pieces of 1x1 to 6x5 bins of a common lattice, overlapping, touching or apart, some of them "
    "empty, averaged with any choice of weights, and sets that have no common lattice. Non-trivial: at least two pieces that are not identical in place "
    "and have data"
)

FIELDS = ['M', 'N', 'U', 'T']


@st.composite
def specs(draw):
    num = draw(st.integers(1, 5))
    pieces = []
    for _ in range(num):
        nx, ny = draw(st.integers(1, 6)), draw(st.integers(1, 5))
        pieces.append({
            'nx': nx, 'ny': ny,
            'i': draw(st.integers(0, 6)), 'j': draw(st.integers(0, 4)),
            'fields': {l: draw(gen.sparse_hexbytes(nx * ny, draw(gen.FILLS)) if l in ('M', 'N')
                               else gen.hexbytes(nx * ny)) for l in FIELDS},
            'empty': draw(st.sampled_from([False, False, False, False, True])),
        })
    return {
        'pieces': pieces,
        'dx': draw(st.sampled_from(gen.SPACINGS)), 'dy': draw(st.sampled_from(gen.SPACINGS)),
        'x0': draw(st.integers(-80, 80)) / 8, 'y0': draw(st.integers(-80, 80)) / 10,
        'weights': draw(st.sampled_from([[], [['U', 'M']], [['U', 'M'], ['T', 'N']], [['T', 'M']]])),
        'exclude': draw(st.booleans()),
        'labels': draw(st.sampled_from([['X', 'Y'], ['X', 'Y'], ['Y', 'Z']])),
        'order': draw(st.permutations(list(range(num)))),
    }


def build(spec, ctx):
    xl, yl = spec['labels']
    flows, parts = [], []
    for p in spec['pieces']:
        xs = spec['x0'] + spec['dx'] * (p['i'] + np.arange(p['nx']))
        ys = spec['y0'] + spec['dy'] * (p['j'] + np.arange(p['ny']))
        xm, ym = np.meshgrid(xs, ys)  # y-major
        data = gen.decode(p['fields'])
        flow = ctx.sut(FlowData, (xl, xm), (yl, ym), *[(l, data[l]) for l in FIELDS], info={
            'shape': (p['nx'], p['ny']), 'spacing': (spec['dx'], spec['dy']),
            'origin': (xs[0], ys[0]), 'num_bins': p['nx'] * p['ny'],
        })
        if p['empty']:
            flow = ctx.sut(flow.lims, xl, 1e6, None)
        flows.append(flow)
        parts.append({l: data[l].reshape(p['ny'], p['nx']) for l in FIELDS})
    return flows, parts


def average(spec, ctx):
    xl, yl = spec['labels']
    flows, parts = build(spec, ctx)
    used = [k for k, p in enumerate(spec['pieces']) if not p['empty']]
    ctx.label('with empty sets' if len(used) < len(flows) else 'no empty sets')
    if not used:
        return
    places = {(p['i'], p['j'], p['nx'], p['ny']) for p in (spec['pieces'][k] for k in used)}
    ctx.nontrivial(len(places) > 1)

    i0 = min(spec['pieces'][k]['i'] for k in used)
    j0 = min(spec['pieces'][k]['j'] for k in used)
    nx = max(spec['pieces'][k]['i'] + spec['pieces'][k]['nx'] for k in used) - i0
    ny = max(spec['pieces'][k]['j'] + spec['pieces'][k]['ny'] for k in used) - j0
    count = len(used) if spec['exclude'] else len(flows)

    stack = {l: np.zeros((count, ny, nx)) for l in FIELDS}
    for n, k in enumerate(used):
        p = spec['pieces'][k]
        for l in FIELDS:
            stack[l][n, p['j'] - j0:p['j'] - j0 + p['ny'], p['i'] - i0:p['i'] - i0 + p['nx']] = parts[k][l]
    weights = dict(map(tuple, spec['weights']))
    want = {}
    for l in FIELDS:
        if l in weights:
            w = stack[weights[l]]
            total = w.sum(axis=0)
            safe = np.where(total == 0, 1.0, total)
            want[l] = np.where(total == 0, 0.0, (stack[l] * w).sum(axis=0) / safe)
        else:
            want[l] = stack[l].mean(axis=0)

    before = [f.data.copy() for f in flows]
    for order in (range(len(flows)), spec['order']):
        kw = {'weights': [tuple(w) for w in spec['weights']]}
        if spec['exclude']:
            kw['exclude_empty_sets'] = True
        if spec['labels'] != ['X', 'Y']:
            kw['coord_labels'] = tuple(spec['labels'])
        got = ctx.sut(average_flow_data, [flows[k] for k in order], **kw)
        same_ints(ctx, got.shape, (nx, ny), 'shape')
        same_pair(ctx, got.spacing, (spec['dx'], spec['dy']), 'spacing')
        x0, y0 = spec['x0'] + i0 * spec['dx'], spec['y0'] + j0 * spec['dy']
        same_pair(ctx, got.origin, (x0, y0), 'origin', atol=1e-9)
        ctx.check(got.num_bins == nx * ny, "num_bins is %r and not %d", got.num_bins, nx * ny)
        ctx.check(set(got.properties) == set(FIELDS) | {xl, yl}, "labels %r", got.properties)
        # Bins may come in any order: find them by their place
        ctx.check(got.data.size == nx * ny, "%d bins and not %d", got.data.size, nx * ny)
        order_of = np.lexsort((np.round((got.data[xl] - x0) / spec['dx']), np.round((got.data[yl] - y0) / spec['dy'])))
        xm, ym = np.meshgrid(x0 + spec['dx'] * np.arange(nx), y0 + spec['dy'] * np.arange(ny))
        same(ctx, got.data[xl][order_of], xm.ravel(), xl, atol=1e-9)
        same(ctx, got.data[yl][order_of], ym.ravel(), yl, atol=1e-9)
        for l in FIELDS:
            same(ctx, got.data[l][order_of], want[l].ravel(), l, rtol=1e-9, atol=1e-9)
    for f, b in zip(flows, before):
        for l in b.dtype.names:
            same(ctx, f.data[l], b[l], 'input %s' % l, rtol=0, atol=0)


@st.composite
def bad_specs(draw):
    spec = draw(specs())
    spec['bad'] = draw(st.sampled_from(['nothing', 'unset', 'unequal', 'weights', 'offset', 'grids']))
    spec['which'] = draw(st.integers(0, 4))
    # Part of a bin by which one of the sets is off the lattice, or the bins which one record is moved by
    spec['off'] = [draw(st.sampled_from([0.0, 0.25, -0.375, 0.125])), draw(st.sampled_from([0.0, 0.25, 0.375, -0.125]))]
    spec['moved'] = [draw(st.integers(-2, 2)), draw(st.integers(-2, 2))]
    return spec


def refuse(spec, ctx):
    """Data that has no common lattice is refused."""

    for p in spec['pieces']:
        p['empty'] = False
    flows, _ = build(spec, ctx)
    labels = tuple(spec['labels'])
    ctx.nontrivial(len(flows) > 1)
    ctx.label(spec['bad'])
    if spec['bad'] == 'nothing':
        bad = ctx.raises(average_flow_data, [])
        ctx.check(bad[0] and isinstance(bad[1], ValueError), "no data gave %r", bad[1])
    elif spec['bad'] == 'unset':
        for f in flows:
            f.spacing = None
        bad = ctx.raises(average_flow_data, flows, coord_labels=labels)
        ctx.check(bad[0], "unset spacings gave %r", bad[1])
    elif spec['bad'] == 'unequal' and len(flows) > 1:
        k = spec['which'] % len(flows)
        flows[k].spacing = (2 * spec['dx'], spec['dy']) if spec['exclude'] else (spec['dx'], spec['dy'] / 2)
        bad = ctx.raises(average_flow_data, flows, coord_labels=labels)
        ctx.check(bad[0] and isinstance(bad[1], ValueError), "unequal spacings gave %r", bad[1])
    elif spec['bad'] == 'offset' and len(flows) > 1:
        # Coordinates are compared to a tenth of a length unit, and a rounding error of their values
        off = [o * d for o, d in zip(spec['off'], (spec['dx'], spec['dy']))]
        if max(map(abs, off)) < 0.11:
            return
        k = spec['which'] % len(flows)
        for l, o in zip(labels, off):
            flows[k].data[l] += o
        bad = ctx.raises(average_flow_data, flows, coord_labels=labels)
        ctx.check(bad[0] and isinstance(bad[1], ValueError), "sets off the lattice gave %r", bad[1])
    elif spec['bad'] == 'grids' and len(flows) > 1:
        # Records to average are of the same bins
        data = flows[0].data
        records = [data.copy() for _ in flows]
        moved = [m * d for m, d in zip(spec['moved'], (spec['dx'], spec['dy']))]
        for l, m in zip(labels, moved):
            records[spec['which'] % len(flows)][l] += m
        if max(map(abs, moved)) < 0.11:
            if not any(moved):
                got = ctx.sut(average_data, records, coord_labels=labels)
                for l in data.dtype.names:
                    same(ctx, got[l], data[l], 'average of equal %s' % l, rtol=1e-9, atol=1e-9)
            return
        bad = ctx.raises(average_data, records, coord_labels=labels)
        ctx.check(bad[0] and isinstance(bad[1], ValueError), "records of other bins gave %r", bad[1])
    elif spec['bad'] == 'weights':
        bad = ctx.raises(average_flow_data, flows, weights=[('U', 'not there')], coord_labels=labels)
        ctx.check(bad[0] and isinstance(bad[1], KeyError), "unknown weights gave %r", bad[1])


SUBS = [
    Sub('average', specs(), average, quick=500),
    Sub('refuse', bad_specs(), refuse, quick=120),
]
