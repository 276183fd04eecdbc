"""Comparisons and reference models shared by the checks."""

import numpy as np


def array(ctx, values, what, size=None):
    """A finite float array from an output."""

    a = np.asarray(values, dtype=float)
    if size is not None:
        ctx.check(a.size == size, "%s has %d values and not %d", what, a.size, size)
    return a


def same(ctx, got, want, what, rtol=1e-9, atol=1e-9):
    """Element-wise comparison, NaN equals NaN."""

    g = np.asarray(got, dtype=float)
    w = np.asarray(want, dtype=float)
    ctx.check(g.shape == w.shape, "%s: shape %r and not %r", what, g.shape, w.shape)
    ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
    if not np.all(ok):
        i = int(np.flatnonzero(~np.atleast_1d(ok).ravel())[0])
        ctx.check(
            False, "%s: value %d is %r and not %r (%d of %d differ)", what, i,
            np.atleast_1d(g).ravel()[i], np.atleast_1d(w).ravel()[i],
            int(np.count_nonzero(~np.atleast_1d(ok))), g.size
        )


def same_pair(ctx, got, want, what, atol=1e-9, rtol=1e-9):
    ctx.check(got is not None and len(got) == 2, "%s: %r is no pair", what, got)
    ctx.check(None not in tuple(got), "%s: %r and not %r", what, got, want)
    same(ctx, [float(v) for v in got], [float(v) for v in want], what, atol=atol, rtol=rtol)


def same_ints(ctx, got, want, what):
    got = [int(v) for v in got]
    want = [int(v) for v in want]
    ctx.check(got == want, "%s: %r and not %r", what, got, want)


def weighted_mean(values, weights):
    """Weighted mean along the first axis, 0 where all weights are zero."""

    values = np.asarray(values, dtype=float)
    weights = np.asarray(weights, dtype=float)
    total = weights.sum(axis=0)
    with np.errstate(all='ignore'):
        out = (values * weights).sum(axis=0) / total
    return np.where(total == 0, 0.0, out)


def mean_map(maps):
    """The documented sample average: N, M plain, T number and U, V mass weighted."""

    def stack(l):
        return np.array([np.asarray(m[l], dtype=float) for m in maps])

    out = {'N': stack('N').mean(axis=0), 'M': stack('M').mean(axis=0)}
    out['T'] = weighted_mean(stack('T'), stack('N'))
    for l in ('U', 'V'):
        out[l] = weighted_mean(stack(l), stack('M'))
    return out


def combined_map(data, shape, nx, ny):
    """Combine blocks of nx x ny bins of an x-major map. Left-over bins are left out."""

    mx, my = shape[0] // nx, shape[1] // ny

    def blocks(l):
        a = np.asarray(data[l], dtype=float).reshape(shape)[:mx * nx, :my * ny]
        return a.reshape(mx, nx, my, ny).transpose(1, 3, 0, 2).reshape(nx * ny, mx * my)

    out = {'N': blocks('N').sum(axis=0), 'M': blocks('M').sum(axis=0)}
    out['T'] = weighted_mean(blocks('T'), blocks('N'))
    for l in ('U', 'V'):
        out[l] = weighted_mean(blocks(l), blocks('M'))
    return out, (mx, my)
