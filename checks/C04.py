"""n-dimensional (cross) power spectra."""
import numpy as np
from symex.harness import case
import spectra as S

OUTSIDE = 'grids larger than listed; fields with |value| > 3 (the identities are homogeneous)'
STUBS = ['scipy.fftpack/numpy.fft transforms are the exact DFT by definition']

SH = [(2, 3, 2), (4,), (3, 4), (2, 2, 3), (5,)]


@case(quick=[dict(shape=(2, 3, 2), dims=(3., 5., 2.)), dict(shape=(4,), dims=7.), dict(shape=(3, 4), dims=(2., 9.)), dict(shape=(2, 2, 2), dims=None)],
      thorough=[dict(shape=(3, 3, 2), dims=(1., 2., 3.)), dict(shape=(4, 2, 3), dims=10.), dict(shape=(7,), dims=3.), dict(shape=(4, 4), dims=5.), dict(shape=(3, 3, 3), dims=100.)])
def definition(ctx, shape, dims):
    f = ctx.array('f', shape, -3, 3)
    f0 = f.copy()
    d = dims if dims is None or np.ndim(dims) == 0 else tuple(dims)
    ps = ctx.t2c.power_spectrum_nd(f, box_dims=d)
    L = ctx.mod('conv').LB if dims is None else dims
    ctx.check(ps.shape == tuple(shape), 'same dimensions')
    sc = float(np.prod(S.dims_of(shape, L))) / np.prod(shape)
    ref = S.ps_ref(ctx, f, shape, L)
    ctx.close(ps.reshape(-1) / sc, ctx.np.array(ref) / sc, 'squared modulus of the Fourier transform times V/N^2', tol=1e-6)
    ctx.ge(ps.reshape(-1), ctx.np.zeros(len(ref)), 'non-negative')
    ctx.close(f, f0, 'input not modified')


@case(quick=[dict(shape=(2, 3, 2)), dict(shape=(5, 2)), dict(shape=(6,))], thorough=[dict(shape=(3, 3, 3)), dict(shape=(4, 3, 2)), dict(shape=(4, 4, 2))])
def parseval(ctx, shape):
    f = ctx.array('f', shape, -3, 3)
    V = 13.0
    dims = [V] + [1.0] * (len(shape) - 1)
    ps = ctx.t2c.power_spectrum_nd(f, box_dims=dims)
    ctx.close(ps.sum() / V, (f * f).mean(), 'summed power over the volume is the mean square', tol=1e-6)
    z = tuple(n // 2 for n in shape)
    ctx.close(ps[z] / V, f.mean() * f.mean(), 'central element is the mean squared', tol=1e-6)


@case(quick=[dict(shape=(2, 3, 2), axis=1, s=1), dict(shape=(4, 2), axis=0, s=3)], thorough=[dict(shape=(3, 3, 2), axis=2, s=1), dict(shape=(4, 2, 3), axis=0, s=2)])
def shift_and_scale(ctx, shape, axis, s):
    f = ctx.array('f', shape, -3, 3)
    a = ctx.real('a', -2, 2)
    P = ctx.t2c.power_spectrum_nd
    p = P(f, box_dims=2.0)
    ctx.close(P(ctx.np.roll(f, s, axis=axis), box_dims=2.0), p, 'periodic shift leaves the power unchanged', tol=1e-6)
    ctx.close(P(f * a, box_dims=2.0), p * (a * a), 'power scales with the square of the field', tol=1e-5)
    q = P(f + a, box_dims=2.0)
    m = np.ones(shape)
    m[tuple(n // 2 for n in shape)] = 0
    ctx.close(q * ctx.const(m), p * ctx.const(m), 'adding a constant changes only the zero mode', tol=1e-5)


@case(quick=[dict(shape=(2, 3, 2), dims=(3., 5., 2.)), dict(shape=(4, 3), dims=6.)], thorough=[dict(shape=(3, 3, 2), dims=4.), dict(shape=(2, 2, 4), dims=(1., 1., 9.))])
def cross(ctx, shape, dims):
    X, P = ctx.t2c.cross_power_spectrum_nd, ctx.t2c.power_spectrum_nd
    f, g = ctx.array('f', shape, -3, 3), ctx.array('g', shape, -3, 3)
    f0, g0 = f.copy(), g.copy()
    x = X(f, g, dims)
    ctx.close(x.reshape(-1), ctx.np.array(S.ps_ref(ctx, f, shape, dims, g)), 'real part of F conj(G) times V/N^2', tol=1e-5)
    ctx.close(X(g, f, dims), x, 'symmetric', tol=1e-6)
    ctx.close(X(f, f, dims), P(f, box_dims=dims), 'cross spectrum of a field with itself', tol=1e-6)
    ctx.close(f, f0, 'first input not modified')
    ctx.close(g, g0, 'second input not modified')


@case(quick=[dict(shape=(2, 2, 3))], thorough=[dict(shape=(3, 2, 3))])
def cross_linear(ctx, shape):
    X, P = ctx.t2c.cross_power_spectrum_nd, ctx.t2c.power_spectrum_nd
    f, g, h = (ctx.array(n, shape, -2, 2) for n in 'fgh')
    ctx.close(X(f + 3.0 * h, g, 5.0), X(f, g, 5.0) + 3.0 * X(h, g, 5.0), 'linear in the first field', tol=1e-5)
    ctx.close(P(f + g, box_dims=5.0), P(f, box_dims=5.0) + P(g, box_dims=5.0) + 2.0 * X(f, g, 5.0), 'power of a sum', tol=1e-5)


@case(quick=[dict(shape=(2, 2, 2))], thorough=[dict(shape=(3, 2, 2))])
def storage(ctx, shape):
    """Integer input, alternative spellings of the box size."""
    P = ctx.t2c.power_spectrum_nd
    f = ctx.array('f', shape, -5, 5, kind='int')
    a = P(f * 1.0, box_dims=4.0)
    ctx.close(P(f, box_dims=4.0), a, 'integer input', tol=1e-6)
    ctx.close(P(f, box_dims=np.array([4.0, 4.0, 4.0])), a, 'array of box lengths', tol=1e-6)
    ctx.close(P(f, boxsize=4.0), a, 'boxsize keyword', tol=1e-6)
    ctx.close(ctx.t2c.cross_power_spectrum_nd(f, f, box_dims=[4.0, 4.0, 4.0]), a, 'list of box lengths', tol=1e-6)
