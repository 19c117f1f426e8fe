"""Bounded: the real bilinear_interpolation on floats against exact rational bilinear interpolation."""
from hlib import *
from fractions import Fraction as F
import numpy as np

h = H('uniform grids 1..7 x 1..7, 2 or 3 stacked tables, grid steps from a list of awkward decimals, query points on, '
      'next to, between and outside the grid lines; floats compared with exact rationals', 60)
from numerous.utils.interpolation.bilinear_interpolation import bilinear_interpolation as bi

bi = getattr(bi, 'py_func', bi)


def table(nx, ny, x0, dx, y0, dy, vals):
    xs = [x0 + dx * i for i in range(nx)]
    ys = [y0 + dy * i for i in range(ny)]
    return [nx, ny, xs[0], xs[-1], ys[0], ys[-1]] + xs + ys + list(vals), xs, ys


def cell(xs, v):
    """(index, next index, weight) with clamping; exact"""
    v = F(v)
    g = [F(a) for a in xs]
    if len(g) == 1 or v <= g[0]:
        return 0, 0, F(0)
    if v >= g[-1]:
        return len(g) - 1, len(g) - 1, F(0)
    for i in range(len(g) - 1):
        if v == g[i]:
            return i, i, F(0)
        if g[i] < v < g[i + 1]:
            return i, i + 1, (v - g[i]) / (g[i + 1] - g[i])


def want(xs, ys, vals, x, y):
    i, i2, t = cell(xs, x)
    j, j2, s = cell(ys, y)
    q = lambda a, b: F(vals[a + len(xs) * b])
    return (1 - t) * (1 - s) * q(i, j) + t * (1 - s) * q(i2, j) + (1 - t) * s * q(i, j2) + t * s * q(i2, j2)


def check(nx, ny, x0, dx, y0, dy, vals, pts, which, seed):
    t, xs, ys = table(nx, ny, x0, dx, y0, dy, vals)
    other = table(2, 3, -50.0, 1.0, -70.0, 2.0, [1e9 + k for k in range(6)])[0]
    pad = [float('nan')] * 3
    parts = [other, t] if which == 1 else [t, other] if which == 0 else [other, other, t]
    data, dd = [], []
    for k, p in enumerate(parts):
        data += pad
        dd.append(len(data))
        data += p
    data += pad
    ix = {0: 0, 1: 1, 2: 2}[which]
    data, dd = np.array(data, dtype=np.float64), np.array(dd, dtype=np.int64)
    scale = max(1.0, max(abs(v) for v in vals))
    for x, y in pts(xs, ys):
        w = float(want(xs, ys, vals, x, y))
        r = float(bi(ix, x, y, dd, data))
        if not abs(r - w) <= 1e-6 * scale:
            return 'table %s (%dx%d x0=%r dx=%r y0=%r dy=%r): at (%r, %r) got %r, expected %r' % (
                which, nx, ny, x0, dx, y0, dy, x, y, r, w)


def all_points(xs, ys):
    def line(g):
        d = g[1] - g[0] if len(g) > 1 else 1.0
        out = [g[0] - 1.3 * d, g[0] - 0.4 * d, g[-1] + 0.4 * d, g[-1] + 1.3 * d, g[0] - 7 * d, g[-1] + 9 * d]
        out += list(g)
        out += [a + f * d for a in g[:-1] for f in (0.25, 0.5, 0.9)]
        return out
    for x in line(xs):
        for y in line(ys):
            yield x, y


rng = h.rng
STEPS = [1.0, 0.1, 0.3, 0.7, 1.1, 2.5, 10.0, 1 / 3.0, 0.01, 3.3]
STARTS = [0.0, -1.0, 0.1, 273.15, -5.5, 0.7, 100.0]
for nx in range(1, 8):
    for ny in range(1, 8):
        for rep in range(6 if not THOROUGH else 40):
            if not h.left():
                break
            a = (nx, ny, rng.choice(STARTS), rng.choice(STEPS), rng.choice(STARTS), rng.choice(STEPS))
            vals = [float(rng.randint(-100, 100)) for _ in range(nx * ny)]
            w = rep % 3
            h.case('bilinear', lambda: check(*a, vals, all_points, w, 0), list(a) + [w])
h.done()
