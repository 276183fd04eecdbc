"""An independent codec of the map file formats, written from their description.

The gmx flow format describes itself in its header; the simple formats are records of
X Y N T M U V as 32-bit floats or as text.
"""

import os
import re

import numpy as np

DTYPES = {'IX': '<u8', 'IY': '<u8', 'N': '<f4', 'T': '<f4', 'M': '<f4', 'U': '<f4', 'V': '<f4'}
SIMPLE_FIELDS = ['X', 'Y', 'N', 'T', 'M', 'U', 'V']
GMX_FIELDS = ['N', 'T', 'M', 'U', 'V']


def gmx_bytes(data, info, fields=('IX', 'IY', 'N', 'T', 'M', 'U', 'V'), order=None,
              version=1, comments=(), check='M', layout=None):
    """The content of a gmx flow file of x-major `data`."""

    nx, ny = info['shape']
    ix, iy = [v.ravel() for v in np.meshgrid(np.arange(nx), np.arange(ny), indexing='ij')]
    inds = np.flatnonzero(np.asarray(data[check]) != 0)
    if order is not None:
        inds = inds[order(len(inds))]

    lines = {
        'ORIGIN': 'ORIGIN %12f %12f' % tuple(info['origin']),
        'SHAPE': 'SHAPE %d %d' % (nx, ny),
        'SPACING': 'SPACING %12f %12f' % tuple(info['spacing']),
        'NUMDATA': 'NUMDATA %d' % len(inds),
        'FIELDS': 'FIELDS ' + ' '.join(fields),
    }
    header = ['FORMAT GMX_FLOW_%d' % version]
    header += [lines[l] for l in (layout or ['ORIGIN', 'SHAPE', 'SPACING', 'NUMDATA', 'FIELDS'])]
    header += ['COMMENT ' + c for c in comments]

    out = ('\n'.join(header) + '\n').encode('ascii') + b'\0'
    for l in fields:
        values = {'IX': ix, 'IY': iy}.get(l)
        if values is None:
            values = np.asarray(data[l])
        out += values[inds].astype(DTYPES[l]).tobytes()
    return out


def write_gmx(path, data, info, **kwargs):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as fp:
        fp.write(gmx_bytes(data, info, **kwargs))


def write_simple(path, data, plain=False, columns=SIMPLE_FIELDS):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    rows = np.array([data[l] for l in columns], dtype='f4').T
    if plain:
        with open(path, 'w') as fp:
            fp.write(' '.join(columns) + '\n')
            for row in rows:
                fp.write(' '.join('%.6f' % v for v in row) + '\n')
    else:
        rows.astype('<f4').tofile(path)


MIXED = {'mixed': ['gmx', 'simple', 'simple_plain'], 'mixed2': ['simple', 'gmx']}


def write_map(path, data, info, ftype='gmx', number=0):
    """Write a map. The formats of a mixed series are told by the `number` of the map."""

    if ftype in MIXED:
        ftype = MIXED[ftype][number % len(MIXED[ftype])]
    if ftype == 'gmx':
        write_gmx(path, data, info)
    else:
        write_simple(path, data, plain=(ftype == 'simple_plain'))


class BadFile(ValueError):
    pass


def parse_gmx(path):
    """Return the header values and the stored records of a gmx flow file."""

    with open(path, 'rb') as fp:
        buf = fp.read()
    if not buf.startswith((b'FORMAT GMX_FLOW_1\n', b'FORMAT GMX_FLOW_2\n')):
        raise BadFile("not a gmx flow file: %r" % buf[:40])
    end = buf.find(b'\0')
    if end < 0:
        raise BadFile("no end of the header")
    head = {}
    for line in buf[:end].decode('ascii').splitlines():
        words = line.split()
        if words and words[0] != 'COMMENT':
            head[words[0]] = words[1:]
    num = int(head['NUMDATA'][0])
    pos = end + 1
    values = {}
    for l in head['FIELDS']:
        size = num * np.dtype(DTYPES[l]).itemsize
        chunk = buf[pos:pos + size]
        if len(chunk) != size:
            raise BadFile("the file ends inside of its data")
        values[l] = np.frombuffer(chunk, dtype=DTYPES[l])
        pos += size
    if pos != len(buf):
        raise BadFile("%d bytes after the data" % (len(buf) - pos))
    info = {
        'shape': tuple(int(v) for v in head['SHAPE'][:2]),
        'spacing': tuple(float(v) for v in head['SPACING'][:2]),
        'origin': tuple(float(v) for v in head['ORIGIN'][:2]),
        'num_values': num,
    }
    info['num_bins'] = info['shape'][0] * info['shape'][1]
    return info, values


def load_gmx(path):
    """Return the full x-major map of a gmx flow file as (data, info)."""

    info, values = parse_gmx(path)
    nx, ny = info['shape']
    ix = values['IX'].astype(np.int64)
    iy = values['IY'].astype(np.int64)
    if len(ix) and (ix.max() >= nx or iy.max() >= ny):
        raise BadFile("bin index outside of the shape")
    flat = ix * ny + iy
    if len(np.unique(flat)) != len(flat):
        raise BadFile("a bin is stored more than once")
    xs = info['origin'][0] + info['spacing'][0] * (np.arange(nx) + 0.5)
    ys = info['origin'][1] + info['spacing'][1] * (np.arange(ny) + 0.5)
    xm, ym = np.meshgrid(xs, ys, indexing='ij')
    data = {'X': xm.ravel(), 'Y': ym.ravel()}
    for l in GMX_FIELDS:
        data[l] = np.zeros(nx * ny)
        data[l][flat] = values[l].astype(float)
    return data, info


def load_simple(path, plain=False):
    """Return the records of a simple file in file order."""

    if plain:
        with open(path) as fp:
            columns = fp.readline().split()
            rows = [[float(v) for v in line.split()] for line in fp if line.strip()]
        rows = np.array(rows, dtype=float).reshape(len(rows), len(columns))
        return {l: rows[:, i] for i, l in enumerate(columns)}
    raw = np.fromfile(path, dtype='<f4')
    if raw.size % 7:
        raise BadFile("the size is no multiple of a record")
    rows = raw.reshape(-1, 7).astype(float)
    return {l: rows[:, i] for i, l in enumerate(SIMPLE_FIELDS)}


def snapshot(directory):
    """Content of all files below a directory."""

    out = {}
    for root, _, files in os.walk(directory):
        for f in files:
            path = os.path.join(root, f)
            with open(path, 'rb') as fp:
                out[os.path.relpath(path, directory)] = fp.read()
    return out


def read_grace(path):
    """The sets of a Grace project file, as (comment, x, y) for each."""

    comments, sets, current = {}, [], None
    with open(path) as fp:
        lines = [line.strip() for line in fp]
    for line in lines:
        if not line or line.startswith('#'):
            continue
        comment = re.match(r'@\s*s(\d+)\s+comment\s+"(.*)"$', line)
        target = re.match(r'@target\s+G0\.S(\d+)$', line, re.I)
        if comment:
            comments[int(comment.group(1))] = comment.group(2)
        elif target:
            if int(target.group(1)) != len(sets):
                raise ValueError("set %s of %r is out of order" % (target.group(1), path))
            if current is not None:
                raise ValueError("set %d of %r does not end" % (len(sets) - 1, path))
            current = {'type': None, 'rows': []}
            sets.append(current)
        elif line.startswith('@type'):
            current['type'] = line.split()[1]
        elif line == '&':
            current = None
        elif not line.startswith('@'):
            if current['type'] != 'xy':
                raise ValueError("set %d of %r has the type %r" % (len(sets) - 1, path, current['type']))
            current['rows'].append([float(v) for v in line.split()])
    out = []
    for k, s in enumerate(sets):
        if any(len(row) != 2 for row in s['rows']):
            raise ValueError("set %d of %r has rows of not 2 columns" % (k, path))
        rows = np.array(s['rows'], dtype=float).reshape(len(s['rows']), 2)
        out.append((comments.get(k), rows[:, 0], rows[:, 1]))
    return out
