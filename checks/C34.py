"""Bubble models: kernels painted at positions, unions of balls up to a filling fraction."""
import numpy as np
from symex.harness import case

STUBS = ['integer draws: every value of the first draw, the first and the last cell for the others', 'scipy.ndimage.distance_transform_edt and skimage.morphology.ball: the installed library on the cells of the path', 'progress bars are no-ops']
OUTSIDE = 'kernels wider than the cube; larger cubes and balls; the generator behind the draws; given cubes with values other than 0 and 1'


def painted(c0, k0, shape, k, pos, again=False):
    """Sum of the cube and the kernels; again: the cube so far is added with every kernel (known finding)."""
    out = np.empty(shape, object)
    for q in np.ndindex(*shape):
        v = c0[q]
        for p in pos:
            if again:
                v = v + v
            for j in np.ndindex(*k):
                if all((p[a] + j[a] - k[a] // 2) % shape[a] == q[a] for a in range(3)):
                    v = v + k0[j]
        out[q] = v
    return out


def either(ctx, c, want, found, label, known):
    """Values are as wanted, or else as in the known finding, which is reported under a label of its own."""
    for q in np.ndindex(*c.shape):
        ctx.check((abs(c[q] - want[q]) <= 1e-9) | (abs(c[q] - found[q]) <= 1e-9), label)
        ctx.close(c[q], want[q], known, tol=1e-9)


@case(quick=[dict(shape=(3, 3, 3), k=(3, 3, 3)), dict(shape=(4, 3, 2), k=(2, 3, 1)), dict(shape=(3, 4, 3), k=(1, 2, 3))], thorough=[dict(shape=(5, 4, 4), k=(3, 3, 3)), dict(shape=(4, 4, 4), k=(4, 2, 3))])
def paint(ctx, shape, k):
    """The kernel is painted on an empty cube, centred on any position and periodic."""
    T = ctx.mod('test_case')
    ker = ctx.array('k', k, -3, 3)
    k0 = ctx.np.array(ker)
    c = ctx.const(np.zeros(shape))
    pos = [[int(ctx.int('p%d' % a, 0, shape[a] - 1)) for a in range(3)]]
    T.paint_kernel(c, np.array(pos), ker)
    ctx.close(c, painted(np.zeros(shape), k0, shape, k, pos), 'sum of the kernels', tol=1e-9)
    ctx.close(ker, k0, 'kernel not modified', tol=0)


@case(quick=[dict(shape=(3, 3, 3), k=(3, 3, 3), n=2), dict(shape=(3, 4, 3), k=(1, 2, 3), n=1)], thorough=[dict(shape=(4, 4, 4), k=(4, 2, 3), n=3)])
def paint_more(ctx, shape, k, n):
    """Kernels are added once at every position, and to what the cube contained."""
    T = ctx.mod('test_case')
    c, ker = ctx.array('c', shape, -3, 3), ctx.array('k', k, -3, 3)
    c0, k0 = ctx.np.array(c), ctx.np.array(ker)
    pos = [[(i + 1) % s for s in shape] for i in range(n)]
    T.paint_kernel(c, np.array(pos), ker)
    either(ctx, c, painted(c0, k0, shape, k, pos), painted(c0, k0, shape, k, pos, True), 'sum of the kernels', 'added again with every kernel')
    ctx.close(ker, k0, 'kernel not modified', tol=0)


def ball(n, r, p):
    d = [np.minimum(np.abs(np.arange(n) - p[a]), n - np.abs(np.arange(n) - p[a])) for a in range(3)]
    return d[0][:, None, None] ** 2 + d[1][None, :, None] ** 2 + d[2][None, None, :] ** 2 <= r * r


@case(quick=[dict(n=3, kind='Poisson', given=None, hi=0.5), dict(n=4, kind='uniform-random', given=((0, 0, 0), (3, 1, 2)), hi=0.19), dict(n=5, kind='non-overlapping', given=((2, 2, 2),), hi=0.06),
             dict(n=5, kind='Anti-clustered', given=((2, 2, 2), (2, 2, 1), (2, 2, 3)), hi=0.07), dict(n=4, kind='Poisson', given=((1, 1, 1),), hi=0.3, batch=2, most=1)],
      thorough=[dict(n=5, kind='nonoverlapping', given=((2, 2, 2), (1, 2, 2), (3, 2, 2)), hi=0.07), dict(n=4, kind='Poisson', given=((0, 0, 0),), hi=0.19)])
def bubbles(ctx, n, kind, given, hi, batch=1, most=1000):
    """The given cube united with periodic balls centred at cells that are neutral (or further than the radius from any bubble), up to the first that reaches the fraction."""
    T = ctx.mod('test_case')
    r = 1
    x = ctx.real('x_ion', 0.02, hi)
    start = np.zeros((n, n, n))
    for p in given or ():
        start[p] = 1
    cube = None if given is None else ctx.const(start.copy())
    draws = []

    class R:
        @staticmethod
        def randint(low, high, size=None):
            ctx.check(low == 0, 'any of the cells')
            v = [int(ctx.int('d', 0, int(high) - 1)) if not draws and not i else ctx.pick('d%d.%d' % (len(draws), i), [0, int(high) - 1]) for i in range(int(size))]
            draws.append((int(high), v))
            return np.array(v)
    T.np = Rng(T.np, R)
    try:
        out = T.spherical_bubble_model(n, x, r=r, source_distribution=kind, cube=cube, batch_size=batch, max_iter=most)
    finally:
        T.np = T.np.base
    state = start.copy()
    apart = kind.lower() not in ('poisson', 'uniform-random')
    got = np.asarray(ctx.concrete(out), float)
    one = 4 * np.pi / 3
    if batch * one >= (x - state.mean()) * n ** 3:
        ctx.check(not draws and bool(np.array_equal(got, state)), 'no room for a bubble')
        return
    for i, (high, v) in enumerate(draws):
        ctx.check(state.mean() < x, 'painting stops at the fraction')
        if apart:
            free = [q for q in np.ndindex(n, n, n) if not (ball(n, r, q) & (state > 0)).any()]
        else:
            free = [q for q in np.ndindex(n, n, n) if state[q] == 0]
        ctx.check(high == len(free), 'every free cell can be drawn')
        if not i:
            firsts = [free[j] for j in v]
        new = state.copy()
        for j in v:
            new[ball(n, r, free[j])] = 1
        state = new
    ctx.check(bool(np.array_equal(got, state)), 'union of the bubbles')
    if apart:
        room = any(not (ball(n, r, q) & (state > 0)).any() for q in np.ndindex(n, n, n))
    else:
        room = True
    ctx.check((state.mean() >= x) if room and len(draws) < most else (len(draws) <= most), 'painting goes on to the fraction')
    if cube is not None:
        first = start.copy()
        for j, f in zip(draws[0][1], firsts):
            first = 2 * first + ball(n, r, f)
        now = np.asarray(ctx.concrete(cube), float)
        same = bool(np.array_equal(now, start))
        ctx.check(same or bool(np.array_equal(now, first)), 'the given cube is not modified')
        ctx.check(same, 'the first bubble is painted into the given cube')


@case(quick=[dict(n=4, kind='non-overlapping', given=((0, 0, 0), (1, 0, 3)), hi=0.17), dict(n=3, kind='anti-clustered', given=None, hi=0.3)], thorough=[dict(n=5, kind='nonoverlapping', given=((0, 4, 2),), hi=0.06)])
def across(ctx, n, kind, given, hi):
    """The first non-overlapping bubble overlaps none across the boundary, and may be anywhere in an empty cube."""
    T = ctx.mod('test_case')
    start = np.zeros((n, n, n))
    for p in given or ():
        start[p] = 1
    free = sum(not (ball(n, 1, q) & (start > 0)).any() for q in np.ndindex(n, n, n))
    seen = []

    class R:
        @staticmethod
        def randint(low, high, size=None):
            seen.append(int(high))
            return np.array([int(ctx.int('d%d' % len(seen), 0, int(high) - 1)) if len(seen) == 1 else 0])
    T.np = Rng(T.np, R)
    try:
        T.spherical_bubble_model(n, hi, r=1, source_distribution=kind, cube=None if given is None else ctx.const(start.copy()), max_iter=1)
    finally:
        T.np = T.np.base
    away = sum(not any(sum((a - b) ** 2 for a, b in zip(p, q)) <= 1 for p in given or ()) for q in np.ndindex(n, n, n))
    right = not seen or seen[0] == free
    ctx.check(right or given is None or seen[0] == away, 'free cells')
    ctx.check(right, 'free cells across the boundary' if given is not None else 'free cells of an empty cube')


class Rng:
    """numpy with the draws of the case."""

    def __init__(self, base, rng):
        self.base, self.random = base, rng

    def __getattr__(self, k):
        return getattr(self.base, k)
