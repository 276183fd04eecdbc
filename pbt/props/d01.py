"""D01: flow data objects keep bins intact, and copies are independent of each other."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub
from pbt.oracle import same

from droplets.flow import FlowData

ID = 'D01'
RULE = (
    "flow data objects of 1 to 12 fields and up to 40 bins of mixed types and memory layouts, of arrays and of lists of numbers, and histories of copying, limiting, "
    "translating, sorting, changing values and information on a growing pool of them, compared with a model after "
    "each step. Non-trivial: a history derives an object and changes one of the pool afterwards, a construction "
    "has at least two fields and two bins"
)

LABELS = ['X', 'Y', 'M', 'U', 'phi']


# Construction -----------------------------------------------------------------------------

@st.composite
def construct_specs(draw):
    nx, ny = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    n = nx * ny
    labels = draw(st.permutations(['X', 'Y', 'M', 'N', 'U', 'V', 'T', 'flow', 'phi']))
    labels = labels[:draw(st.integers(1, 7))]
    fields = []
    for l in labels:
        fields.append({
            'label': l,
            'bytes': draw(gen.hexbytes(n)),
            'kind': draw(st.sampled_from(['f8', 'f8', 'f4', 'i8', 'bool', 'list', 'numbers'])),
            'flat': draw(st.booleans()),
            'memory': draw(st.sampled_from(['plain', 'plain', 'plain', 'transposed', 'strided', 'reversed'])),
        })
    return {
        'nx': nx, 'ny': ny, 'fields': fields,
        'split': draw(st.sampled_from(['tuples', 'dict', 'dicts', 'mixed'])),
        'info': draw(st.sets(st.sampled_from(['shape', 'spacing', 'origin', 'num_bins']))
                     .map(sorted)),
        'dx': draw(st.sampled_from(gen.SPACINGS)), 'x0': draw(st.integers(-50, 50)) / 8,
        'as': draw(st.sampled_from(['tuple', 'list', 'array'])),
        'bad': draw(st.sampled_from([None, None, None, 'length', 'type', 'info'])),
    }


def values_of(field, nx, ny):
    raw = gen.unhex(field['bytes'])
    kind = field['kind']
    if kind == 'f8':
        a = (raw - 100) / 8.
    elif kind == 'f4':
        a = ((raw - 100) / 8.).astype('f4')
    elif kind == 'i8':
        a = (raw - 100).astype('i8')
    elif kind == 'bool':
        a = raw % 2 == 1
    elif kind == 'numbers':
        # Whole numbers may come first
        a = [int(v) // 4 if v % 4 == 0 else float(v) / 4 for v in raw]
    else:
        a = [float(v) / 4 for v in raw]
    if kind in ('list', 'numbers'):
        return a if field['flat'] else [a[i * ny:(i + 1) * ny] for i in range(nx)]
    memory = field.get('memory', 'plain')
    if not field['flat']:
        a = a.reshape(nx, ny)
    # The same values, in another order in memory
    if memory == 'transposed':
        a = a.T.copy().T
    elif memory == 'strided':
        a = np.repeat(a, 2, axis=-1)[..., ::2]
    elif memory == 'reversed':
        a = a[::-1].copy()[::-1]
    return a


def construct(spec, ctx):
    nx, ny = spec['nx'], spec['ny']
    n = nx * ny
    pairs = [(f['label'], values_of(f, nx, ny)) for f in spec['fields']]
    ctx.nontrivial(len(pairs) > 1 and n > 1)
    ctx.label(*{f.get('memory', 'plain') for f in spec['fields'] if f['kind'] not in ('list', 'numbers')})
    ctx.label('mixed types' if len({f['kind'] for f in spec['fields']}) > 1 else 'one type')

    full = {
        'shape': (nx, ny), 'spacing': (spec['dx'], 2 * spec['dx']),
        'origin': (spec['x0'], -spec['x0']), 'num_bins': n,
    }
    info = {}
    for key in spec['info']:
        v = full[key]
        if key != 'num_bins':
            v = {'tuple': tuple, 'list': list, 'array': tuple}[spec['as']](v)
        info[key] = v

    if spec['split'] == 'tuples':
        args = list(pairs)
    elif spec['split'] == 'dict':
        args = [dict(pairs)]
    elif spec['split'] == 'dicts':
        args = [dict(pairs[:1]), dict(pairs[1:])] if len(pairs) > 1 else [dict(pairs)]
    else:
        args = [pairs[0]] + ([dict(pairs[1:])] if len(pairs) > 1 else [])

    if spec['bad'] == 'length':
        bad = ctx.raises(FlowData, *(args + [('other', np.arange(n + 1.) if n > 1 else np.arange(3.))]), info=info)
        ctx.check(bad[0] and isinstance(bad[1], ValueError), "fields of unequal size gave %r", bad[1])
        return
    if spec['bad'] == 'type':
        bad = ctx.raises(FlowData, *(args + [[('other', np.arange(float(n)))]]), info=info)
        ctx.check(bad[0] and isinstance(bad[1], TypeError), "a bad argument type gave %r", bad[1])
        return
    if spec['bad'] == 'info':
        bad = ctx.raises(FlowData, *args, info=dict(info, unknown=1))
        ctx.check(bad[0] and isinstance(bad[1], KeyError), "unknown information gave %r", bad[1])
        return

    info_before = dict(info)
    flow = ctx.sut(FlowData, *args, info=info)
    ctx.check(info == info_before, "the input information was changed to %r", info)
    ctx.check(list(flow.properties) == [l for l, _ in pairs], "labels %r", flow.properties)
    ctx.check(flow.data.shape == (n, ), "shape of the data is %r", flow.data.shape)
    for l, v in pairs:
        want = np.array(v).ravel()
        same(ctx, flow.data[l], want, l, rtol=0, atol=0)
        same(ctx, ctx.sut(flow.get_data, l), want, 'get_data(%r)' % l, rtol=0, atol=0)
        ctx.check(flow.data[l].dtype == want.dtype, "%s has type %r and not %r", l, flow.data[l].dtype, want.dtype)
    ctx.check(ctx.sut(flow.get_data, 'not there') is None, "unknown data is not None")

    none = (None, None)
    for key, got in (('shape', flow.shape), ('spacing', flow.spacing), ('origin', flow.origin)):
        want = tuple(full[key]) if key in info else none
        ctx.check(tuple(got) == want, "%s is %r and not %r", key, got, want)
    want = n if 'num_bins' in info else None
    ctx.check(flow.num_bins == want, "num_bins is %r and not %r", flow.num_bins, want)
    size = ctx.sut(flow.size)
    if 'shape' in info and 'spacing' in info:
        same(ctx, size, (nx * spec['dx'], ny * 2 * spec['dx']), 'size')
    else:
        ctx.check(size is None, "the size is %r without shape or spacing", size)

    # Types can be given for all fields at once
    cast = ctx.sut(FlowData, *args, info=info, dtype='f8')
    for l, v in pairs:
        ctx.check(cast.data[l].dtype == np.dtype('f8'), "%s has type %r after a cast", l, cast.data[l].dtype)
        same(ctx, cast.data[l], np.array(v, dtype='f8').ravel(), 'cast ' + l, rtol=0, atol=0)


# Histories --------------------------------------------------------------------------------

@st.composite
def histories(draw):
    nx, ny = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    n = nx * ny
    steps = []
    for _ in range(draw(st.integers(1, 10))):
        op = draw(st.sampled_from(['copy', 'lims', 'translate', 'sort', 'mutate', 'set_info', 'translate_bad']))
        steps.append({
            'op': op,
            'obj': draw(st.integers(0, 9)),
            'label': draw(st.sampled_from(LABELS)),
            'lo': draw(st.one_of(st.none(), st.integers(-8, 16))),
            'hi': draw(st.one_of(st.none(), st.integers(-8, 16))),
            'value': draw(st.integers(-9, 9)),
            'array': draw(st.booleans()),
            'order': draw(st.sampled_from([None, ['X', 'Y'], ['Y', 'X'], ['M', 'U']])),
            'index': draw(st.integers(0, 30)),
        })
    return {
        'nx': nx, 'ny': ny,
        'fields': {l: draw(gen.hexbytes(n)) for l in LABELS},
        'grid': draw(st.booleans()),
        'info': draw(st.sampled_from(['full', 'none', 'spacing'])),
        'steps': steps,
    }


class Model:
    """Rows of bins and the information of a flow data object."""

    def __init__(self, rows, info):
        self.rows = [list(r) for r in rows]
        self.info = dict(info)

    def copy(self):
        return Model(self.rows, self.info)


def compare(ctx, flow, model, what):
    ctx.check(flow.data.size == len(model.rows), "%s has %d bins and not %d", what, flow.data.size, len(model.rows))
    ctx.check(list(flow.properties) == LABELS, "%s has labels %r", what, flow.properties)
    for i, l in enumerate(LABELS):
        same(ctx, flow.data[l], [r[i] for r in model.rows], '%s of %s' % (l, what), rtol=0, atol=0)
    none = (None, None)
    for key in ('shape', 'spacing', 'origin'):
        want = model.info.get(key) or none
        ctx.check(tuple(getattr(flow, key)) == tuple(want), "%s of %s is %r and not %r", key, what, getattr(flow, key), want)
    ctx.check(flow.num_bins == model.info.get('num_bins'), "num_bins of %s is %r and not %r", what,
        flow.num_bins, model.info.get('num_bins'))


def history(spec, ctx):
    nx, ny = spec['nx'], spec['ny']
    columns = {l: (gen.unhex(spec['fields'][l]) % 64 - 16) / 2. for l in LABELS}
    if spec['grid']:
        xm, ym = np.meshgrid(np.arange(nx), np.arange(ny), indexing='ij')
        columns['X'], columns['Y'] = xm.ravel() * 1., ym.ravel() * 1.
    rows = list(zip(*[columns[l].tolist() for l in LABELS]))
    info = {}
    if spec['info'] != 'none':
        info['spacing'] = (1.0, 1.0)
    if spec['info'] == 'full':
        info.update(shape=(nx, ny), origin=(0.5, 0.25), num_bins=nx * ny)

    pool = [(ctx.sut(FlowData, *[(l, columns[l]) for l in LABELS], info=dict(info)), Model(rows, info))]
    derived = changed = False

    for k, step in enumerate(spec['steps'], 1):
        flow, model = pool[step['obj'] % len(pool)]
        i = LABELS.index(step['label'])
        op = step['op']
        ctx.label(op)

        if op == 'copy':
            pool.append((ctx.sut(flow.copy), model.copy()))
            derived = True
        elif op == 'lims':
            new = ctx.sut(flow.lims, step['label'], step['lo'], step['hi'])
            rows = [r for r in model.rows
                    if (step['lo'] is None or r[i] >= step['lo']) and (step['hi'] is None or r[i] <= step['hi'])]
            kept = {'num_bins': len(rows)}
            if model.info.get('spacing'):
                kept['spacing'] = model.info['spacing']
            pool.append((new, Model(rows, kept)))
            derived = True
        elif op == 'translate':
            n = len(model.rows)
            value = (np.arange(n) * 0.5 + step['value']) if step['array'] else step['value'] * 0.5
            new = ctx.sut(flow.translate, step['label'], value)
            m = model.copy()
            for r, v in zip(m.rows, np.broadcast_to(value, (n, )).tolist()):
                r[i] += v
            pool.append((new, m))
            derived = True
        elif op == 'translate_bad':
            n = len(model.rows)
            bad = ctx.raises(flow.translate, 'not there', 1.0)
            ctx.check(bad[0] and isinstance(bad[1], KeyError), "translating unknown data gave %r", bad[1])
            if n > 1:
                bad = ctx.raises(flow.translate, step['label'], np.arange(n + 1.))
                ctx.check(bad[0] and isinstance(bad[1], ValueError), "translating by a bad size gave %r", bad[1])
            bad = ctx.raises(flow.lims, 'not there', 0., 1.)
            ctx.check(bad[0] and isinstance(bad[1], KeyError), "limiting unknown data gave %r", bad[1])
        elif op == 'sort':
            before = [list(r) for r in model.rows]
            order = step['order'] or ['X', 'Y']
            if step['order'] is None:
                ctx.sut(flow.sort)
            else:
                ctx.sut(flow.sort, coord_labels=tuple(order))
            minor, major = (LABELS.index(l) for l in order)
            got = [[float(v) for v in r] for r in flow.data.tolist()]
            ctx.check(sorted(got) == sorted(before), "sorting changed the bins")
            keys = [(r[major], r[minor]) for r in got]
            ctx.check(keys == sorted(keys), "the bins are not sorted along %r: %r", order, keys)
            model.rows = got
            changed = changed or derived
        elif op == 'mutate':
            if model.rows:
                j = step['index'] % len(model.rows)
                flow.data[step['label']][j] = step['value'] * 0.25
                model.rows[j][i] = step['value'] * 0.25
                changed = changed or derived
        else:
            new_info = {'shape': (step['index'], 2), 'num_bins': step['index']}
            if step['array']:
                new_info = {'origin': (step['value'] * 0.5, 1.0), 'spacing': (0.5, 0.25)}
            ctx.sut(flow.set_info, dict(new_info))
            model.info = new_info
            changed = changed or derived

        for j, (f, m) in enumerate(pool):
            compare(ctx, f, m, 'object %d after step %d (%s)' % (j, k, op))

    ctx.nontrivial(derived and changed)


SUBS = [
    Sub('construct', construct_specs(), construct, quick=300),
    Sub('history', histories(), history, quick=400),
]
