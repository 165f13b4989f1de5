"""Smoothing of light cones and coeval cubes to telescope resolution."""
import numpy as np
from symex.harness import case

STUBS = ['numpy FFTs: the defining sums', 'scipy.integrate.quad for distances: evaluated at the concrete redshifts of the case',
         'scipy.interpolate.interp1d: the linear interpolant']
OUTSIDE = 'larger cubes; the uv map itself (C21/C22)'


def circ2(ctx, a, g):
    """Periodic 2-D convolution of a with kernel g centred at n//2."""
    out = 0
    c = (g.shape[0] // 2, g.shape[1] // 2)
    for i in range(g.shape[0]):
        for j in range(g.shape[1]):
            out = out + ctx.np.roll(a, (i - c[0], j - c[1]), axis=(0, 1)) * g[i, j]
    return out


def gauss(n, fwhm):
    i = np.arange(n) - n // 2
    g = np.exp(-4 * np.log(2) * (i[:, None] ** 2 + i[None, :] ** 2) / fwhm ** 2)
    return g / g.sum()


def lane(a, axis, i):
    return a[(slice(None),) * axis + (i,)]


def cell(a):
    return a.item() if hasattr(a, 'item') else a


@case(quick=[dict(zs=(7.0, 7.1, 7.2, 7.3, 7.4), k=2), dict(zs=(7.0, 7.1, 7.25, 7.3, 7.5), k=1), dict(zs=(8.0, 8.2, 8.3), k=0)],
      thorough=[dict(zs=tuple(6 + 0.1 * i for i in range(8)), k=k) for k in (0, 3, 7)] + [dict(zs=(6., 6.1, 6.3, 6.31, 6.7), k=k) for k in (0, 2, 4)])
def lightcone_tophat(ctx, zs, k):
    """Mean over exactly the slices within dz/2, for every width of slice k."""
    n = len(zs)
    a = ctx.array('a', (2, 1, n), -2, 2)
    d = ctx.real('dz', 0.001, 0.9)
    z = ctx.const(np.array(zs))
    for i in range(n):                       # keep away from the exact edges (float rounding decides)
        e = 2 * abs(zs[i] - zs[k])
        if e > 0:
            ctx.assume(ctx.np.abs(d - e) > 1e-6)
    dz = ctx.np.concatenate([ctx.const(np.full(k, 0.05)), ctx.np.array([d]), ctx.const(np.full(n - k - 1, 0.31))])
    a0 = a.copy()
    out = ctx.mod('smoothing').smooth_lightcone_tophat(a, z, dz, verbose=False)
    for i in range(n):
        w = d if i == k else (0.05 if i < k else 0.31)
        m = [bool(abs(zs[j] - zs[i]) <= w / 2) for j in range(n)]
        ref = sum(a[:, :, j] for j in range(n) if m[j]) / sum(m)
        ctx.close(out[:, :, i], ref, 'mean of the slices within the redshift window', tol=1e-7)
    ctx.close(a, a0, 'input unchanged')


@case(quick=[dict(shape=(3, 3, 2), axis=2), dict(shape=(2, 4, 4), axis=0), dict(shape=(3, 2, 3), axis=1)], thorough=[dict(shape=(5, 5, 2), axis=2), dict(shape=(2, 5, 5), axis=0)])
def lightcone_gauss(ctx, shape, axis):
    """Every slice is convolved with its own beam; slices never mix."""
    a = ctx.array('a', shape, -2, 2)
    w = [1.3, 2.4, 0.8, 3.1][:shape[axis]]
    out = ctx.mod('smoothing').smooth_lightcone_gauss(a, np.array(w), nu_axis=axis)
    for i in range(shape[axis]):
        s = lane(a, axis, i)
        ctx.close(lane(out, axis, i), circ2(ctx, s, gauss(s.shape[0], w[i])), 'slice %d with its own beam' % i, tol=1e-6)


@case(quick=[dict(n=5, w=3, axis=0), dict(n=5, w=3, axis=1), dict(n=5, w=3, axis=2), dict(n=4, w=2, axis=2), dict(n=4, w=1, axis=0), dict(n=3, w=9, axis=1)],
      thorough=[dict(n=n, w=w, axis=x) for n in (6, 7) for w in (2, 3, 5) for x in (0, 1, 2)])
def coeval_tophat(ctx, n, w, axis):
    """Moving average along the frequency axis only."""
    shape = [2, 2, 2]
    shape[axis] = n
    if axis != 2:
        shape = [n, n, n] if n < 5 else [n if i == axis else 2 for i in range(3)]
    a = ctx.array('a', tuple(shape), -2, 2, free=None if np.prod(shape) < 30 else list(range(0, int(np.prod(shape)), 3)))
    out = ctx.mod('smoothing').smooth_coeval_tophat(a, w, axis, verbose=False)
    ctx.check(out.shape == a.shape, 'shape')
    if w % 2 and w <= n:
        ref = sum(ctx.np.roll(a, j, axis=axis) for j in range(-(w // 2), w // 2 + 1)) / w
    elif w > n:
        ref = sum(ctx.np.roll(a, j, axis=axis) for j in range(n)) / n
    else:
        k = np.asarray(ctx.concrete(ctx.mod('smoothing').tophat_kernel(n, w)), float).sum(axis=0)
        ref = sum(ctx.np.roll(a, j - n // 2, axis=axis) * k[j] for j in range(n))
    ctx.close(out, ref, 'periodic mean along the frequency axis', tol=1e-6)
    ctx.close(out.sum(), a.sum(), 'total', tol=1e-6)


@case(quick=[dict(axis=2, ratio=1.), dict(axis=0, ratio=2.), dict(axis=1, ratio=1.)], thorough=[dict(axis=x, ratio=r, z=z) for x in (0, 2) for r in (1., 3.) for z in (6.5, 12.)])
def coeval(ctx, axis, ratio, z=8.0):
    """Coeval smoothing: the beam of the maximum baseline, across and along."""
    n = 4
    sm = ctx.mod('smoothing')
    a = ctx.array('a', (n, n, n), -1, 1, free=list(range(0, 64, 4)))
    box, b = 40.0, 2.0
    out = sm.smooth_coeval(a, z, box_size_mpc=box, max_baseline=b, ratio=ratio, nu_axis=axis, verbose=False)
    res = (1 + z) * 21e-5 / b * float(ctx.concrete(ctx.mod('cosmo').z_to_cdist(z))) * n / box
    ref = sm.smooth_coeval_gauss(sm.smooth_coeval_tophat(a, res * ratio, axis, verbose=False), res, axis)
    ctx.close(out, ref, 'resolution = wavelength / baseline at that redshift', tol=1e-6)
    for i in range(n):
        ctx.close(lane(sm.smooth_coeval_gauss(a, res, axis), axis, i), circ2(ctx, lane(a, axis, i), gauss(n, res)), 'beam across the sky', tol=1e-6)
    from astropy import units as u
    ctx.close(sm.smooth_coeval(a, z, box_size_mpc=box, max_baseline=b * 1000 * u.m, ratio=ratio, nu_axis=axis, verbose=False), out, 'baseline with units', tol=1e-9)
    ctx.close(out.sum(), a.sum(), 'total conserved', tol=1e-5)


@case(quick=[dict(n=3, m=3), dict(n=4, m=2)], thorough=[dict(n=3, m=5)])
def lightcone(ctx, n, m):
    """Light-cone smoothing at the resolution of every slice, any slice order."""
    sm, c = ctx.mod('smoothing'), ctx.mod('cosmo')
    a = ctx.array('a', (n, n, m), -1, 1)
    box, b = 60.0, 2.0
    d = c.z_to_cdist(8.0) + np.arange(m) * box / n
    zs = np.asarray(ctx.concrete(c.cdist_to_z(ctx.const(d) if not isinstance(d, float) else d)), float)
    out, z = ctx.t2c.smooth_lightcone(a, ctx.const(zs), box_size_mpc=box, max_baseline=b, ratio=2., verbose=False)
    ctx.close(z, zs, 'redshifts', tol=1e-9)
    D = np.array([float(ctx.concrete(c.z_to_cdist(float(x)))) for x in zs])
    H = np.array([float(ctx.concrete(c.hubble_parameter(float(x)))) for x in zs])
    res = (1 + zs) * 21e-5 / b * D
    dz = 2. * res / 3e5 * H
    for i in range(m):
        w = np.abs(zs - zs[i]) <= dz[i] / 2
        s = sum(a[:, :, j] for j in range(m) if w[j]) / w.sum()
        ctx.close(out[:, :, i], circ2(ctx, s, gauss(n, res[i] * n / box)), 'slice %d smoothed at its own resolution' % i, tol=1e-5)
    back, z2 = ctx.t2c.smooth_lightcone(a[:, :, ::-1], ctx.const(zs[::-1].copy()), box_size_mpc=box, max_baseline=b, ratio=2., verbose=False)
    ctx.close(back[:, :, ::-1], out, 'reversed light cone gives the reversed result', tol=1e-6)
    ctx.close(z2, zs[::-1], 'reversed redshifts', tol=1e-9)
    low, z3 = ctx.t2c.smooth_lightcone(a, 8.0, box_size_mpc=box, max_baseline=b, ratio=2., verbose=False)
    ctx.close(low, out, 'lowest redshift given instead of all', tol=1e-3)


@case(quick=[dict(n=2, m=1), dict(n=3, m=2)], thorough=[dict(n=4, m=2)])
def uv_threshold(ctx, n, m):
    """Fourier modes below the uv threshold vanish and all others are kept."""
    sm = ctx.mod('smoothing')
    a = ctx.array('a', (n, n, m), -1, 1)
    uv = np.round(ctx.det(3, n, n, m) * 4)
    a0 = a.copy()
    for thr in (0.0, 1.0, 2.5):
        out = sm.smooth_lightcone_uv_threshold(a, ctx.const(uv), threshold=thr)
        ft, fo = ctx.np.fft.fft2(a, axes=(0, 1)), ctx.np.fft.fft2(out, axes=(0, 1))
        keep = uv >= thr
        mirror = np.roll(keep[::-1, ::-1], (1, 1), axis=(0, 1))
        w = (keep.astype(float) + mirror) / 2          # a real map keeps the Hermitian part
        ctx.close(ctx.np.real(fo), ctx.np.real(ft) * w, 'kept modes (real)', tol=1e-6)
        ctx.close(ctx.np.imag(fo), ctx.np.imag(ft) * w, 'kept modes (imaginary)', tol=1e-6)
        ctx.close(a, a0, 'input unchanged')
    t = ctx.real('t', 0.1, 3.9)
    u = ctx.array('u', (n, n), 0, 4, free=[0, 1]) if n == 2 else None
    ctx.check(ctx.raises(lambda: sm.smooth_lightcone_uv_threshold(a, ctx.const(uv), threshold=-1.0), ValueError), 'negative threshold refused')
    if u is not None:
        out = sm.smooth_lightcone_uv_threshold(a[:, :, 0], u, threshold=2.0)
        fo, ft = ctx.np.fft.fft2(out), ctx.np.fft.fft2(a[:, :, 0])
        for idx in np.ndindex(2, 2):
            keep = ctx.np.where(u[idx] >= 2.0, 1.0, 0.0)
            ctx.close(ctx.np.real(fo[idx]), ctx.np.real(ft[idx]) * keep, 'mode kept iff its uv coverage reaches the threshold', tol=1e-6)


@case(quick=[dict(n=3), dict(n=4)], thorough=[dict(n=5), dict(n=6)])
def uvmap(ctx, n):
    """Imaging through a uv map multiplies every Fourier mode by it."""
    sm = ctx.mod('smoothing')
    a = ctx.array('a', (n, n), -1, 1)
    uv = np.round(ctx.det(5, n, n) * 6) + 0.5
    uv = uv + np.roll(uv[::-1, ::-1], (1, 1), axis=(0, 1))
    out = sm.convolve_uvmap(a, uv_map=ctx.const(uv), verbose=False)
    ft, fo = ctx.np.fft.fft2(a), ctx.np.fft.fft2(out)
    ctx.close(ctx.np.real(fo), ctx.np.real(ft) * (uv / uv.max()), 'modes (real)', tol=1e-6)
    ctx.close(ctx.np.imag(fo), ctx.np.imag(ft) * (uv / uv.max()), 'modes (imaginary)', tol=1e-6)
    # baselines longer than the maximum drop out
    z, b, c = 8.0, 2.0, ctx.mod('cosmo')
    D = float(ctx.concrete(c.z_to_cdist(z)))
    i = np.minimum(np.arange(n), n - np.arange(n))
    r = np.sqrt(i[:, None] ** 2 + i[None, :] ** 2)
    for kmax in (0.5, 1.2, 2.3, 9.0):
        box = (1 + z) * 21e-5 / b * D * kmax
        f = sm.remove_baselines_from_uvmap(ctx.const(uv), z, max_baseline=b, box_size_mpc=box)
        ref = uv * (r <= kmax)
        ref[0, 0] = 0
        ctx.close(f, ref, 'modes beyond the longest baseline and the zero spacing are removed', tol=1e-9)
    sym = ctx.array('u', (n, n), 0, 3)
    f = sm.remove_baselines_from_uvmap(sym, z, max_baseline=b, box_size_mpc=(1 + z) * 21e-5 / b * D * 1.2)
    m = (r <= 1.2).astype(float)
    m[0, 0] = 0
    ctx.close(f, sym * m, 'all other uv cells unchanged', tol=1e-9)


@case(quick=[dict(n=7), dict(n=8)], thorough=[dict(n=11)])
def baselines(ctx, n):
    """A uv cell survives exactly when its baseline, on the periodic grid, is no
    longer than the longest one: all four corners of larger maps."""
    sm, c = ctx.mod('smoothing'), ctx.mod('cosmo')
    z, b = 7.0, 3.0
    D = float(ctx.concrete(c.z_to_cdist(z)))
    i = np.minimum(np.arange(n), n - np.arange(n))
    r = np.sqrt(i[:, None] ** 2 + i[None, :] ** 2)
    uv = ctx.array('uv', (n, n), 0, 3)
    u0 = uv.copy()
    for kmax in (1.1, 1.6, 2.4, 3.3, 4.1, 20.0):
        m = (r <= kmax).astype(float)
        m[0, 0] = 0
        f = sm.remove_baselines_from_uvmap(uv, z, max_baseline=b, box_size_mpc=(1 + z) * 21e-5 / b * D * kmax)
        ctx.close(f, uv * m, 'kept and removed cells up to %g' % kmax, tol=1e-9)
    ctx.close(uv, u0, 'map not modified', tol=1e-12)


@case(quick=[dict(axis=2), dict(axis=0)], thorough=[dict(axis=1)])
def uvmap_coeval(ctx, axis):
    n, z = 3, 8.0
    sm = ctx.mod('smoothing')
    a = ctx.array('a', (n, n, n), -1, 1)
    uv = ctx.const(np.array([[0., 3., 3.], [2., 1., 4.], [2., 4., 1.]]))
    out = sm.convolve_uvmap_coeval(a, z, box_size_mpc=120., max_baseline=2., ratio=1., nu_axis=axis, verbose=False, uv_map=uv)
    ctx.check(out.shape == a.shape, 'axes kept')
    res = (1 + z) * 21e-5 / 2. * float(ctx.concrete(ctx.mod('cosmo').z_to_cdist(z))) * n / 120.
    t = sm.smooth_coeval_tophat(a, res, axis, verbose=False)
    u = sm.remove_baselines_from_uvmap(uv, z, max_baseline=2., box_size_mpc=120.)
    for i in range(n):
        s = lane(t, axis, i)
        if axis == 0:
            s = s.T
        o = lane(out, axis, i)
        o = o.T if axis == 0 else o
        ctx.close(o, sm.convolve_uvmap(s, uv_map=u, box_size_mpc=120., verbose=False), 'slice %d imaged' % i, tol=1e-6)
