"""Smoothing kernels and convolutions."""
import numpy as np
from symex.harness import case

STUBS = ['numpy FFTs: the defining sums; scipy.ndimage.map_coordinates: the linear map of the installed routine (impulse response)',
         'torch/jax back ends are absent from this sandbox']
OUTSIDE = 'arrays larger than listed; torch and jax back ends; odd map_coordinates orders other than those listed'


def circular(ctx, a, k, c):
    """Periodic convolution by definition; kernel centre at index c."""
    out = 0
    for idx in np.ndindex(*k.shape):
        out = out + ctx.np.roll(a, tuple(int(i - j) for i, j in zip(idx, c)), axis=tuple(range(a.ndim))) * k[idx]
    return out


def half(s):
    return tuple(n // 2 for n in s)


@case(quick=[dict(s1=(4,), s2=(4,)), dict(s1=(5,), s2=(5,)), dict(s1=(4, 3), s2=(3, 2)), dict(s1=(3, 4), s2=(1, 3)), dict(s1=(2, 3, 2), s2=(2, 3, 1))],
      thorough=[dict(s1=(5, 5), s2=(5, 5)), dict(s1=(4, 4), s2=(4, 4)), dict(s1=(7,), s2=(3,)), dict(s1=(8,), s2=(5,)), dict(s1=(3, 3, 3), s2=(3, 3, 3))], weight=2)
def convolution_circular(ctx, s1, s2):
    """Circular convolution by its definition, both arguments symbolic."""
    a = ctx.array('a', s1, -2, 2)
    k = ctx.array('k', s2, -2, 2)
    f = ctx.mod('fft_functions').fftconvolve
    out = f(a, k)
    ctx.close(out, circular(ctx, a, k, half(s2)), 'periodic convolution with the kernel centred', tol=1e-6)
    ctx.close(out.sum(), a.sum() * k.sum(), 'total', tol=1e-6)


@case(quick=[dict(s1=(4,), s2=(3,)), dict(s1=(4,), s2=(2,)), dict(s1=(3, 3), s2=(2, 3))], thorough=[dict(s1=(6,), s2=(5,)), dict(s1=(6,), s2=(4,)), dict(s1=(4, 5), s2=(3, 2))])
def convolution_modes(ctx, s1, s2):
    """full / same / valid and padded boundaries agree with direct sums."""
    a = ctx.array('a', s1, -2, 2)
    k = ctx.array('k', s2, -2, 2)
    f = ctx.mod('fft_functions').fftconvolve
    big = tuple(x + y - 1 for x, y in zip(s1, s2))
    pad = lambda p0, p1, mode: ctx.np.pad(a, list(zip(p0, p1)), mode=mode)
    z = pad([n - 1 for n in s2], [n - 1 for n in s2], 'constant')

    def direct(p, shape, off):
        out = 0
        for idx in np.ndindex(*s2):
            sl = tuple(slice(o - i + n - 1, o - i + n - 1 + m) for i, n, m, o in zip(idx, s2, shape, off))
            out = out + p[sl] * k[idx]
        return out
    ctx.close(f(a, k, mode='full', boundary='constant'), direct(z, big, [0] * len(s1)), 'full')
    ctx.close(f(a, k, mode='same', boundary='constant'), direct(z, s1, half(s2)), 'same')
    ctx.close(f(a, k, mode='valid'), direct(z, tuple(x - y + 1 for x, y in zip(s1, s2)), [n - 1 for n in s2]), 'valid')
    for b, m in (('reflect', 'reflect'), ('mirror', 'symmetric'), ('nearest', 'edge'), ('wrap', 'wrap')):
        z = pad([n - 1 for n in s2], [n - 1 for n in s2], m)
        ctx.close(f(a, k, mode='same', boundary=b), direct(z, s1, half(s2)), 'same, ' + b)


@case(quick=[dict(n=4), dict(n=5)], thorough=[dict(n=6), dict(n=7)])
def gaussian(ctx, n):
    """Gaussian kernels for any width; smoothing with them."""
    t, xp = ctx.t2c, ctx.np
    sm = ctx.mod('smoothing')
    for j, (dim, f) in enumerate(((2, sm.gauss_kernel), (3, sm.gauss_kernel_3d), (3, ctx.mod('radio_telescope_noise').gauss_kernel_3d))):
        s = ctx.real('s%d' % j, 0.3, 5.0)
        k = f(n, sigma=s)
        ctx.check(k.shape == (n,) * dim, 'kernel shape')
        ctx.ge(k, 0.0, 'non-negative kernel')
        ctx.close(k.sum(), 1.0, 'normalised kernel', tol=1e-6)
        c = (n // 2,) * dim
        for idx in np.ndindex(*k.shape):
            if idx == tuple(sorted(idx)) and max(idx) <= n // 2:      # the others are equal to one of these, see below
                ctx.le(k[idx], k[c], 'largest at the centre')
            m = tuple(2 * (n // 2) - i for i in idx)
            if max(m) < n:
                ctx.close(k[idx], k[m], 'symmetric', tol=1e-7)
            ctx.close(k[idx], k[tuple(sorted(idx))], 'isotropic', tol=1e-7)
        w = f(n, fwhm=2.0)
        ctx.close(w, f(n, sigma=2.0 / np.sqrt(8 * np.log(2))), 'full width at half maximum', tol=1e-9)


@case(quick=[dict(n=4, fwhm=2.0), dict(n=5, fwhm=1.3), dict(n=3, fwhm=20.0)], thorough=[dict(n=6, fwhm=2.0), dict(n=7, fwhm=3.0)])
def smooth_gaussian(ctx, n, fwhm):
    a = ctx.array('a', (n, n), -3, 3)
    a0 = a.copy()
    L, e = ctx.real('L', -3, 3), ctx.array('e', (n, n), 0, 3)
    out = ctx.t2c.smooth_gauss(a, fwhm=fwhm)
    i = np.arange(n) - n // 2
    g = np.exp(-4 * np.log(2) * (i[:, None] ** 2 + i[None, :] ** 2) / fwhm ** 2)
    ctx.close(out, circular(ctx, a, g / g.sum(), (n // 2, n // 2)), 'periodic Gaussian convolution', tol=1e-6)
    ctx.close(out.sum(), a.sum(), 'total conserved', tol=1e-6)
    ctx.ge(ctx.t2c.smooth_gauss(L + e, fwhm=fwhm), L, 'smoothing never undershoots the minimum', tol=1e-6)
    ctx.le(ctx.t2c.smooth_gauss(L - e, fwhm=fwhm), L, 'smoothing never overshoots the maximum', tol=1e-6)
    ctx.close(a, a0, 'input unchanged')


@case(quick=[dict(n=4, w=2), dict(n=4, w=3), dict(n=5, w=3), dict(n=5, w=1), dict(n=4, w=1), dict(n=3, w=8), dict(n=6, w=2.5)],
      thorough=[dict(n=n, w=w) for n in (3, 4, 5, 6, 7) for w in (1, 2, 3, 4, 5, 12)])
def tophat(ctx, n, w):
    """Square/cubic/spherical tophat kernels and smoothing with them."""
    t, xp = ctx.t2c, ctx.np
    nc = int(np.floor(w / 2.) + np.ceil(w / 2.))
    for dim, k in ((2, t.tophat_kernel(n, w)), (3, t.tophat_kernel_3d(n, w))):
        k = np.asarray(ctx.concrete(k), float)
        nz = np.nonzero(k)
        ctx.check(k.shape == (n,) * dim and abs(k.sum() - 1) < 1e-9 and np.allclose(k[nz], k.max()), 'normalised flat kernel')
        for x in nz:
            ctx.check(x.max() - x.min() + 1 == min(nc, n), 'width of the kernel')
            ctx.check(nc > n - 2 or abs((x.max() + x.min()) / 2 - n // 2) <= 0.51, 'centred')
    s = np.asarray(ctx.concrete(t.tophat_kernel_3d(n, w, shape='sphere')), float)
    i = np.arange(n) - n // 2
    r = np.sqrt(i[:, None, None] ** 2 + i[None, :, None] ** 2 + i[None, None, :] ** 2)
    ctx.check(((s > 0) == (r <= w / 2)).all() and abs(s.sum() - 1) < 1e-9, 'sphere')
    a = ctx.array('a', (n, n), -3, 3)
    out = t.smooth_tophat(a, w)
    ctx.close(out, circular(ctx, a, np.asarray(ctx.concrete(t.tophat_kernel(n, w)), float), (n // 2, n // 2)), 'periodic moving average', tol=1e-6)
    ctx.close(out.sum(), a.sum(), 'total conserved', tol=1e-6)
    if nc % 2 and nc <= n:
        h = nc // 2
        ref = sum(ctx.np.roll(a, (i, j), axis=(0, 1)) for i in range(-h, h + 1) for j in range(-h, h + 1)) / nc ** 2
        ctx.close(out, ref, 'mean over the cells around each cell', tol=1e-6)


@case(quick=[dict(n=5, w=2), dict(n=4, w=2)], thorough=[dict(n=8, w=3), dict(n=7, w=2)])
def lanczos(ctx, n, w):
    t = ctx.t2c
    k = np.asarray(ctx.concrete(t.lanczos_kernel(n, w)), float)
    x = np.linspace(-n / 2., n / 2., n)
    f = np.where(np.abs(x) <= w, np.sinc(x) * np.sinc(x / w), 0)
    ctx.check(np.allclose(k, np.outer(f, f) / np.outer(f, f).sum()), 'Lanczos kernel')
    a = ctx.array('a', (n, n), -1, 1)
    ctx.close(t.smooth_lanczos(a, w), circular(ctx, a, k, (n // 2, n // 2)), 'convolution with it', tol=1e-5)


@case(quick=[dict(n=5, kind=k, w=3) for k in ('tophat', 'gaussian', 'triangular', 'hamming', 'hanning')] + [dict(n=6, kind=None, w=[1, 2, 1])], thorough=[dict(n=9, kind='tophat', w=5), dict(n=40, kind='gaussian', w=3)])
def line(ctx, n, kind, w):
    y = ctx.array('y', n, -2, 2)
    f = ctx.mod('smoothing').smooth_line
    out = f(y, window=w, kind=kind) if kind else f(y, window=w)
    c = {'tophat': lambda: np.ones(w) / w, 'boxcar': lambda: np.ones(w) / w, 'hamming': lambda: np.hamming(w), 'hanning': lambda: np.hanning(w),
         'triangular': lambda: np.r_[1:w + 1, w - 1:0:-1] / w ** 2, 'gaussian': lambda: (lambda g: g / g.sum())(np.exp(-np.arange(-3 * w, 3 * w + 1) ** 2 / 2. / w ** 2)),
         None: lambda: np.array(w) / np.sum(w)}[kind]()
    if len(c) <= n:
        p = ctx.np.concatenate([np.zeros(n), y, np.zeros(n)])
        h = (len(c) - 1) // 2
        ref = sum(c[j] * p[n + h - j:2 * n + h - j] for j in range(len(c)))
        ctx.close(out, ref, 'moving average along the line', tol=1e-7)
    else:
        ctx.check(True, 'window longer than the data')


@case(quick=[dict(order=0), dict(order=1)], thorough=[dict(order=2), dict(order=3)])
def interpolate(ctx, order):
    """At integer positions interpolation returns the data; linear between."""
    t = ctx.t2c
    a = ctx.array('a', (3, 4), -2, 2)
    x, y = ctx.const(np.array([0., 1., 2.])), ctx.const(np.array([0., 1., 2., 3.]))
    if order < 2:
        ctx.close(t.interpolate2d(a, x, y, order=order), a, 'identity at the grid points', tol=1e-6)
    b = ctx.array('b', (2, 3, 2), -2, 2)
    if order < 2:
        ctx.close(t.interpolate3d(b, ctx.const(np.array([0., 1.])), ctx.const(np.array([0., 1., 2.])), ctx.const(np.array([0., 1.])), order=order), b, 'identity at the grid points (3D)', tol=1e-6)
    c = ctx.np.ones((3, 4)) * ctx.real('c', -5, 5)
    o = t.interpolate2d(c, ctx.const(np.array([0.2, 1.7])), ctx.const(np.array([0.4, 2.9, 1.0])), order=order)
    ctx.check(o.shape == (2, 3), 'shape')
    ctx.close(o, c[:2, :3], 'a constant stays constant', tol=1e-6)
    if order == 1:
        m = t.interpolate2d(a, ctx.const(np.array([0.25, 1.5])), ctx.const(np.array([2.0, 1.5])), order=1)
        ctx.close(m[0, 0], 0.75 * a[0, 2] + 0.25 * a[1, 2], 'linear along x', tol=1e-6)
        ctx.close(m[1, 1], (a[1, 1] + a[1, 2] + a[2, 1] + a[2, 2]) / 4, 'bilinear', tol=1e-6)


@case(quick=[dict(n=4), dict(n=5)])
def beam(ctx, n):
    """Beam convolution keeps the shape; wider beams for shorter baselines."""
    t = ctx.t2c
    a = ctx.array('a', (n, n), 0, 2)
    out = t.beam_convolve(a, 9.0, 300.0, beam_w=4.0)
    ctx.check(out.shape == (n, n), 'shape')
    ctx.ge(out, 0.0, 'non-negative', tol=1e-7)
    ctx.le(out.sum(), a.sum(), 'never creates flux', tol=1e-6)
    b = ctx.real('b', 100., 5000.)
    z = ctx.real('z', 5., 20.)
    w = t.get_beam_w(b, z)
    ctx.close(w * b, 3e5 * 1e3 / (1420. / (1 + z) * 1e6) / np.pi * 180 * 60, 'beam width = wavelength / baseline', rtol=1e-6)
