"""Reference model of which bins are liquid, and of the interface edges they form."""

import numpy as np


def radius_of(dx, dy, units):
    """A radius of around `units` bins that no distance between bins is close to."""

    r = units * min(dx, dy)
    nx, ny = int(r / dx) + 3, int(r / dy) + 3
    d = np.sqrt((np.arange(nx)[:, None] * dx)**2 + (np.arange(ny)[None, :] * dy)**2).ravel()
    while np.any(np.abs(d - r) < 1e-3 * min(dx, dy)):
        r *= 1.0071
    return r


def offsets(dx, dy, r):
    nx, ny = int(r / dx) + 1, int(r / dy) + 1
    return [
        (i, j) for i in range(-nx, nx + 1) for j in range(-ny, ny + 1)
        if (i, j) != (0, 0) and (i * dx)**2 + (j * dy)**2 <= r * r
    ]


def filled(values, dx, dy, r, cutoff, bins, periodic=False):
    """Bins (nx, ny) which pass the cutoff, as do `bins` others within a radius."""

    nx, ny = values.shape
    above = values >= cutoff
    count = np.zeros((nx, ny), dtype=int)
    for i, j in offsets(dx, dy, r):
        for ix in range(nx):
            kx = ix + i
            if periodic:
                kx %= nx
            elif not 0 <= kx < nx:
                continue
            for iy in range(max(0, -j), min(ny, ny - j)):
                count[ix, iy] += above[kx, iy + j]
    return above & (count >= bins)


def outermost(row):
    """First and last liquid bin of a layer, or None."""

    inds = np.flatnonzero(row)
    return (int(inds[0]), int(inds[-1])) if inds.size else None


def stretches(row):
    """All (left, right) of the longest liquid stretches around a periodic layer.

    The left edge is ahead of the right edge for those across the boundary.
    """

    n = len(row)
    if not np.any(row):
        return []
    if np.all(row):
        return [(k, (k - 1) % n) for k in range(n)]
    found = []
    for k in range(n):
        if row[k] and not row[k - 1]:
            size = 1
            while row[(k + size) % n]:
                size += 1
            found.append((size, k))
    best = max(s for s, _ in found)
    return [(k, (k + s - 1) % n) for s, k in found if s == best]


def midpoint(values):
    return 0.5 * (np.min(values) + np.max(values))
