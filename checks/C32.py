"""Bispectrum estimator."""
import itertools

import numpy as np
from symex.harness import case

STUBS = ['discrete Fourier transform by its defining sum']
OUTSIDE = 'the Pylians estimators (library not installed); wave numbers within 1e-9 of the edge of a shell; more than 12 cells'


def modes(shape, box):
    """Integer wave vectors of the grid (zero first, in FFT order) and their lengths."""
    f = [[(i + n // 2) % n - n // 2 for i in range(n)] for n in shape]
    q = list(itertools.product(*f))
    return q, [float(np.sqrt(sum((2 * np.pi * c / L) ** 2 for c, L in zip(v, box)))) for v in q]


def triangles(shape, box, shells):
    """Closed triangles (modulo the grid) with one side in each shell."""
    q, k = modes(shape, box)
    sel = [[i for i in range(len(q)) if abs(k[i] - c) < w / 2] for c, w in shells]
    for c, w in shells:
        assert all(abs(abs(v - c) - w / 2) > 1e-9 for v in k), 'mode on the edge of a shell'
    index = {tuple(c % n for c, n in zip(v, shape)): i for i, v in enumerate(q)}
    third = set(sel[2])
    out = []
    for a in sel[0]:
        for b in sel[1]:
            c = index[tuple(-(x + y) % n for x, y, n in zip(q[a], q[b], shape))]
            if c in third:
                out.append((a, b, c))
    return out


def expected(ctx, field, box, shells):
    """V^2 / N^3 times the mean of the product of the three modes over the triangles."""
    N = ctx.np
    t = triangles(field.shape, box, shells)
    if not t:
        return None
    f = N.fft.fftn(field).reshape(-1)
    n = int(np.prod(field.shape))
    s = 0.0
    for a, b, c in t:
        s = s + (f[a] * f[b] * f[c]).real
    return s / len(t) * (float(np.prod(box)) ** 2 / float(n) ** 3)


def compare(ctx, got, want, label):
    for g, w in zip(got, want):
        if w is None:
            continue                    # no triangle: undefined
        ctx.close(g, w, label, tol=1e-3, rtol=1e-6)


SHAPES = [dict(shape=(1, 1, 4), box=(3.0, 5.0, 8.0)), dict(shape=(1, 5, 1), box=(3.0, 10.0, 7.0)), dict(shape=(2, 1, 3), box=(4.0, 9.0, 6.0)), dict(shape=(3, 1, 1), box=(6.0, 1.0, 1.0))]
MORE = [dict(shape=(2, 2, 2), box=(4.0, 5.0, 6.0)), dict(shape=(1, 3, 3), box=(4.0, 5.0, 6.0)), dict(shape=(1, 1, 7), box=(4.0, 5.0, 6.0))]


@case(quick=SHAPES, thorough=MORE)
def three_shells(ctx, shape, box):
    """Any three shells, with equal or different radii and widths."""
    B = ctx.mod('bispectrum')
    a = ctx.array('a', shape, -2, 2)
    b = B.Bispectrum(a, box_dims=box, verbose=False)
    f, comp, mag = B.fft_nd(a, box_dims=box)
    q, k = modes(shape, box)
    f1 = sorted({round(v, 9) for v in k})
    k1, k2 = f1[1], f1[-1]
    for shells in ([(k1, .3)] * 3, [(k1, .3), (k1, .31), (k2, .27)], [(k1, 2.11 * k1), (k1, .2), (k1, .3)], [(k1, .3), (k2, .2), (k2, 2.3 * k2)], [(k2, .3), (k1, .3), (k2, .3)]):
        c, w = [s[0] for s in shells], [s[1] for s in shells]
        want = expected(ctx, a, box, shells)
        for extra in (dict(box_dims=box), dict()):
            got = b.bispectrum_fast(f, *c, *w, k_mag=mag, **extra)
            compare(ctx, [got], [want], 'bispectrum')
        m = b.spherical_shell_mask(shape, c[0], w[0], k_comp=comp)
        ctx.check(bool(np.array_equal(np.asarray(m, float), (abs(np.asarray(mag, float) - c[0]) < w[0] / 2) * 1.0)), 'shell from components')


@case(quick=[dict(n_jobs=j, **s) for j, s in zip((1, 2, 0, 1), SHAPES)], thorough=[dict(n_jobs=1, **s) for s in MORE])
def two_sides(ctx, shape, box, n_jobs):
    """Two sides and the angle between them; window and box."""
    B = ctx.mod('bispectrum')
    N = ctx.np
    a = ctx.array('a', shape, -2, 2)
    a0 = N.array(a)
    win = np.linspace(0.5, 1.5, int(np.prod(shape))).reshape(shape)
    q, k = modes(shape, box)
    f1 = sorted({round(v, 9) for v in k})
    k1, k2, dk = f1[1], f1[-1], 1.37 * f1[1]
    b = B.Bispectrum(a, box_dims=box, verbose=False)
    for kw in (dict(), dict(box_dims=tuple(2 * x for x in box), window=win)):
        L = kw.get('box_dims', box)
        z = box[0] / L[0]
        for binning in ('linear', 'log'):
            out = b.bispectrum_k1k2(k1 * z, k2 * z, dk=dk * z, n_bins=3, binning=binning, verbose=False, n_jobs=n_jobs, **kw)
            al = np.linspace(0, np.pi, 3) if binning == 'linear' else 10 ** np.linspace(-2, np.log10(np.pi), 3)
            k3 = np.sqrt(np.maximum(k1 ** 2 + k2 ** 2 + 2 * k1 * k2 * np.cos(al), 0)) * z
            ctx.close(N.array(out['alpha']), al, 'angles', tol=1e-9)
            ctx.close(N.array(out['theta']), np.pi - al, 'angles', tol=1e-9)
            ctx.close(N.array(out['k3']), k3, 'third side', tol=1e-7)
            ctx.check(float(out['k1']) == k1 * z and float(out['k2']) == k2 * z, 'sides')
            fld = a * win if kw else a
            compare(ctx, out['B'], [expected(ctx, fld, L, [(k1 * z, dk * z), (k2 * z, dk * z), (float(v), dk * z)]) for v in k3], 'bispectrum')
    ctx.close(a, a0, 'field not modified', tol=0)


@case(quick=[dict(n_jobs=j, **s) for j, s in zip((1, 2, 0, 1), SHAPES)], thorough=[dict(n_jobs=1, **s) for s in MORE])
def equilateral(ctx, shape, box, n_jobs):
    """Equal sides at the wave numbers that are returned."""
    B = ctx.mod('bispectrum')
    N = ctx.np
    a = ctx.array('a', shape, -2, 2)
    a0 = N.array(a)
    win = np.linspace(0.5, 1.5, int(np.prod(shape))).reshape(shape)
    b = B.Bispectrum(a, box_dims=box, verbose=False)
    for kw in (dict(), dict(box_dims=tuple(2 * x for x in box), window=win)):
        L = kw.get('box_dims', box)
        q, k = modes(shape, L)
        top, low = max(k) / 2, 2 * np.pi / min(L)
        for binning in ('linear', 'log'):
            e = np.linspace(low, top, 4) if binning == 'linear' else np.logspace(np.log10(low), np.log10(top), 4)
            ks = (e[1:] + e[:-1]) / 2
            for dk in (0.873, 2, np.array([1.1, 1.7, 5.3])):
                out = b.bispectrum_k(dk=dk, n_bins=3, binning=binning, verbose=False, n_jobs=n_jobs, **kw)
                ctx.close(N.array(out['k']), ks, 'wave numbers', tol=1e-9)
                ctx.check(len(out['B']) == 3, 'one value per wave number')
                w = dk * np.ones(3)
                compare(ctx, out['B'], [expected(ctx, a * win if kw else a, L, [(float(ks[i]), float(w[i]))] * 3) for i in range(3)], 'bispectrum')
    ctx.close(a, a0, 'field not modified', tol=0)
