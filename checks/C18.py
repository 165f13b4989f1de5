"""One-point statistics, slice statistics and index search."""
import numpy as np
from symex.harness import case

STUBS = []
OUTSIDE = 'arrays larger than listed; constant fields (zero variance)'


@case(quick=[dict(n=4, shift=3.5, scale=2.0), dict(n=4, shift=-100.0, scale=0.25)], thorough=[dict(n=8, shift=7.0, scale=8.0)])
def moments(ctx, n, shift, scale):
    """Skewness and kurtosis: definition, shift/scale/sign/permutation."""
    t, xp = ctx.t2c, ctx.np
    x = ctx.array('x', n, -5, 5)
    m = x.sum() / n
    d = x - m
    v = (d ** 2).sum() / (n - 1)
    ctx.assume(v > 0.01)
    s, k = t.skewness(x), t.kurtosis(x)
    ctx.close(s * v ** 1.5, (d ** 3).sum() / n, 'skewness: third moment over variance^1.5', tol=1e-6)
    ctx.close(k * v ** 2, (d ** 4).sum() / n, 'kurtosis: fourth moment over variance^2', tol=1e-6)
    y = (x * scale + shift)[::-1].reshape(n, 1)
    dy = (d * scale)[::-1]
    vy = (dy ** 2).sum() / (n - 1)
    ctx.close(t.skewness(y) * vy ** 1.5, (dy ** 3).sum() / n, 'skewness: independent of offset, order and shape', tol=1e-5)
    ctx.close(t.kurtosis(y) * vy ** 2, (dy ** 4).sum() / n, 'kurtosis: independent of offset, order and shape', tol=1e-5)


@case(quick=[dict(n=6)], thorough=[dict(n=12)])
def integer_moments(ctx, n):
    x = ctx.array('x', n, -3, 3, kind='int')
    ctx.assume(x[0] != x[1])
    t = ctx.t2c
    xf = x * 1.0
    for f in (t.skewness, t.kurtosis, ):
        ctx.close(f(x), f(xf), f.__name__ + ' of integers', tol=1e-6)


@case(quick=[dict(n=4)], thorough=[dict(n=9)])
def weighted(ctx, n):
    """Mass-weighted mean: bounds, constant weights, invariance."""
    x = ctx.array('x', n, 0, 1)
    r = ctx.array('r', n, 0.1, 3)
    f = ctx.t2c.mass_weighted_mean_xi
    w = f(x, r)
    ctx.close(w * r.sum(), (x * r).sum(), 'mass-weighted mean')
    L = ctx.real('L', 0, 1)
    ctx.ge(f(x + L, r) * r.sum() - L * r.sum(), 0.0, 'not below the smallest value', tol=1e-6)
    ctx.le(f(L - x, r) * r.sum() - L * r.sum(), 0.0, 'not above the largest value', tol=1e-6)
    ctx.close(f(x, ctx.np.ones(n) * 7.0), x.sum() / n, 'constant density')
    ctx.close(f(x, r * 3.0) * r.sum(), w * r.sum(), 'independent of density units')
    m = ctx.array('m', n, 0, 1, kind='int')
    ctx.close(f(m, r) * r.sum(), (m * r).sum(), 'integer mask')


@case(quick=[dict(shape=(2, 3, 2), axis=a) for a in (0, 1, 2, -1, -2, -3)], thorough=[dict(shape=(3, 4, 2), axis=a) for a in (0, 1, 2, -1, -3)])
def slices(ctx, shape, axis):
    """Mean subtraction / overdensity act slice by slice along the given axis."""
    t, xp = ctx.t2c, ctx.np
    x = ctx.array('x', shape, 0.5, 4)
    x0 = x.copy()
    y = t.subtract_mean_signal(x, axis)
    o = t.signal_overdensity(x, axis)
    mv = xp.moveaxis
    X, Y, O = mv(x0, axis, 0), mv(y, axis, 0), mv(o, axis, 0)
    for i in range(shape[axis]):
        m = X[i].sum() / X[i].size
        ctx.close(Y[i], X[i] - m, 'slice minus its mean')
        ctx.close((O[i] + 1) * m, X[i], 'slice over its mean')
        ctx.close(Y[i].sum(), 0.0, 'zero mean')
    ctx.close(x, x0, 'input unchanged')
    ctx.close(t.subtract_mean_signal(y, axis), y, 'idempotent')
    xi = ctx.array('xi', shape, 1, 5, kind='int')
    ctx.close(t.subtract_mean_signal(xi, axis), t.subtract_mean_signal(xi * 1.0, axis), 'integer signal')
    ctx.close(t.signal_overdensity(xi, axis), t.signal_overdensity(xi * 1.0, axis), 'integer signal: overdensity')


@case(quick=[dict(shape=(2, 3, 4), axis=a) for a in (0, 1, 2)])
def along_los(ctx, shape, axis):
    t = ctx.t2c
    x = ctx.array('x', shape, -4, 4)
    seen = []

    def fn(s):
        seen.append(s.shape)
        return s.max() * 2 + s.sum()
    y = t.apply_func_along_los(x, fn, axis)
    X = ctx.np.moveaxis(x, axis, 0)
    ctx.check(y.shape == (shape[axis],), 'one value per slice')
    for i in range(shape[axis]):
        ctx.close(y[i], X[i].max() * 2 + X[i].sum(), 'function of the slice')
    ctx.check(set(seen) == {tuple(s for k, s in enumerate(shape) if k != axis)}, 'the function gets two-dimensional slices')


@case(quick=[dict(sizes=(2, 3), form='list'), dict(sizes=(2, 2, 4), form='dict')], thorough=[dict(sizes=(3, 5, 2, 4), form='list')])
def combined(ctx, sizes, form):
    """Combining groups equals pooling their members."""
    groups = [ctx.array('g%d' % i, n, -3, 3) for i, n in enumerate(sizes)]
    mean = [g.sum() / n for g, n in zip(groups, sizes)]
    var = [((g - m) ** 2).sum() / (n - 1) for g, m, n in zip(groups, mean, sizes)]
    if form == 'dict':
        mk = lambda v: {i: a for i, a in enumerate(v)}
    else:
        mk = list
    m, v = ctx.mod('helper_functions').combined_mean_variance(mk(mean), mk(var), mk(sizes))
    allx = ctx.np.concatenate(groups)
    M = allx.sum() / allx.size
    ctx.close(m, M, 'mean of the pooled data')
    ctx.close(v, ((allx - M) ** 2).sum() / (allx.size - 1), 'variance of the pooled data')


@case(quick=[dict(n=4, dec=False), dict(n=4, dec=True)], thorough=[dict(n=6, dec=False), dict(n=6, dec=True)])
def index(ctx, n, dec):
    """Fractional index: interpolating the array there returns the (clamped)
    value; inputs are not modified."""
    d = ctx.array('d', n, 0.1, 2)
    ar = ctx.np.cumsum(d)
    if dec:
        ar = ar[::-1]
    v = ctx.array('v', 2, -1.0, 8.0)
    v0, a0 = v.copy(), ar.copy()
    f = ctx.t2c.find_idx
    i = f(ar, v)
    ctx.close(v, v0, 'values unchanged')
    ctx.close(ar, a0, 'array unchanged')
    ctx.ge(i, 0.0, 'not before the start', tol=1e-6)
    ctx.le(i, n - 1.0, 'not after the end', tol=1e-6)
    lo, hi = (a0[-1], a0[0]) if dec else (a0[0], a0[-1])
    cl = ctx.np.minimum(ctx.np.maximum(v0, lo), hi)
    for k in range(2):
        ctx.close(ctx.np.interp(i[k], np.arange(n), a0), cl[k], 'interpolating at the index', tol=1e-5)
    w = ctx.array('w', 1, 0, 3, kind='int')
    ctx.close(f(ar, w), f(ar, w * 1.0), 'integer values')
    bad = ctx.np.array([1.0, 3.0, 2.0])
    ctx.check(ctx.raises(lambda: f(bad, v), ValueError), 'non-monotonic arrays are rejected')
