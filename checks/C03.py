"""Regridding between comoving and observational (angle, frequency) coordinates."""
import numpy as np
from symex.harness import case

STUBS = ['scipy.signal.fftconvolve and scipy.ndimage.map_coordinates: the linear maps of the installed routines (impulse response)',
         'scipy.integrate.quad / interp1d for distances: evaluated at the concrete redshifts of the case']
OUTSIDE = 'symbolic geometry (redshift, resolution and box are parameters of the case); slices whose averaging window leaves the light cone'


def num(ctx, x):
    return np.atleast_1d(np.asarray(ctx.concrete(x), float))


@case(quick=[dict(n=2, p=3), dict(n=2, p=4), dict(n=3, p=3), dict(n=3, p=5)], thorough=[dict(n=4, p=7), dict(n=5, p=6)])
def padded_slice(ctx, n, p):
    """Padding a slice repeats it periodically."""
    a = ctx.array('a', (n, n), -2, 2)
    out = ctx.mod('angular_coordinates')._get_padded_slice(a, p)
    i = np.arange(p) % n
    ctx.close(out, a[np.ix_(i, i)], 'periodic repetition', tol=1e-12)


@case(quick=[dict(shape=(2, 3, 2), p=1), dict(shape=(3, 3, 2), p=2), dict(shape=(4, 4, 1), p=None)], thorough=[dict(shape=(3, 4, 2), p=3)])
def padding(ctx, shape, p):
    """Padding a light cone pads every slice in the field of view only."""
    a = ctx.array('a', shape, -2, 2)
    q = p if p is not None else shape[1] // 2
    for mode, f in (('wrap', lambda n: np.arange(-q, n + q) % n), ('edge', lambda n: np.clip(np.arange(-q, n + q), 0, n - 1)), ('reflect', lambda n: (lambda k: np.where(k < n, k, 2 * n - 2 - k))(np.abs(np.arange(-q, n + q)) % (2 * n - 2)))):
        kw = {} if p is None else {'padded_n': p}
        if mode != 'wrap':
            kw['mode'] = mode
        out = ctx.t2c.padding_lightcone(a, verbose=False, **kw)
        i, j = f(shape[0]), f(shape[1])
        ctx.close(out, a[np.ix_(i, j, np.arange(shape[2]))], 'padding ' + mode, tol=1e-12)


@case(quick=[dict(n=4, m=4), dict(n=4, m=2), dict(n=3, m=5), dict(n=5, m=3)], thorough=[dict(n=3, m=7), dict(n=6, m=3), dict(n=6, m=2), dict(n=5, m=9), dict(n=7, m=7)])
def resample(ctx, n, m):
    """Resampling keeps constants, corners, bounds and transposition."""
    ac = ctx.mod('angular_coordinates')
    a = ctx.array('a', (n, n), -2, 2)
    for order in (0, 1):
        out = ac.resample_slice(a, m, order)
        ctx.check(out.shape == (m, m), 'shape')
        if m == n:
            ctx.close(out, a, 'same resolution: unchanged', tol=1e-6)
        w = max(1, int(np.round(n / m)))
        if w == 1 and m >= n:
            ctx.close(out[0, 0], a[0, 0], 'first corner', tol=1e-6)
            ctx.close(out[-1, -1], a[-1, -1], 'last corner', tol=1e-6)
            if order == 1:
                x = np.linspace(0, n - 1, m)
                for i in range(m):
                    l = min(int(x[i]), n - 2)
                    f = x[i] - l
                    ctx.close(out[i, 0], (1 - f) * a[l, 0] + f * a[l + 1, 0], 'linear between the cells', tol=1e-6)
        ctx.close(ac.resample_slice(a.T, m, order), out.T, 'both sky axes alike', tol=1e-6)
        L, e = ctx.real('L', -3, 3), ctx.array('e', (n, n), 0, 2)
        ctx.ge(ac.resample_slice(L + e, m, order), L, 'stays above the minimum', tol=1e-6)
        ctx.le(ac.resample_slice(L - e, m, order), L, 'stays below the maximum', tol=1e-6)


@case(quick=[dict(z=9.0, box=100., m=4, dnu=1.0, n=2), dict(z=8.0, box=60., m=6, dnu=2.0, n=2), dict(z=7.0, box=30., m=6, dnu=3.0, n=1), dict(z=7.0, box=7.0, m=64, dnu=1.0, n=1)],
      thorough=[dict(z=z, box=b, m=10, dnu=d, n=2) for z in (6.5, 11.) for b in (40., 90.) for d in (1.5, 4.)])
def frequency(ctx, z, box, m, dnu, n):
    """Frequency binning: mean of the slices around each output frequency."""
    ac, c = ctx.mod('angular_coordinates'), ctx.mod('cosmo')
    a = ctx.array('a', (n, 1, m), -2, 2)
    out, nu = ac.bin_lightcone_in_frequency(a, z, box, dnu)
    nu = num(ctx, nu)
    cell = box / n
    d = float(ctx.concrete(c.z_to_cdist(z))) + np.arange(m) * cell
    f = num(ctx, c.z_to_nu(c.cdist_to_z(ctx.const(d))))
    ctx.close(nu[0], 1.42e3 / (1 + z), 'starts at the frequency of the lowest redshift', tol=0.05)
    ctx.check(np.allclose(np.diff(nu), -dnu) and nu[-1] > f[-1] - 1e-3 and nu[-1] - dnu <= f[-1] + 1e-3, 'covers the light cone in steps of dnu')
    ctx.check(out.shape == (n, 1, len(nu)), 'one slice per frequency')
    # number of slices in the widest output bin
    dd = [float(ctx.concrete(c.nu_to_cdist(float(x)))) for x in nu]
    s = int(max(1, np.round((dd[-1] - dd[-2]) / cell)))
    for k in range(len(nu)):
        x = np.interp(-nu[k], -f, np.arange(m))           # fractional slice index of this frequency
        if 0 < k and abs(x - round(x)) < 1e-4:
            continue                                      # float rounding decides
        w = window(int(x + 1e-9), s)
        if w[0] >= 0 and w[1] < m:
            ctx.reach('bin')
            ctx.close(out[:, :, k], sum(a[:, :, j] for j in range(w[0], w[1] + 1)) / s, 'mean over the frequency bin', tol=1e-6)
    ctx.close(ac.bin_lightcone_in_frequency(a[::-1], z, box, dnu)[0], out[::-1], 'lines of sight never mix', tol=1e-6)


def window(i, s):
    """The s slices of a centred tophat around slice i."""
    hi = i + (s - 1) // 2
    return hi - s + 1, hi


@case(quick=[dict(f0=140., dnu=2.0, m=6, cell=24.), dict(f0=160., dnu=3.0, m=6, cell=100.), dict(f0=120., dnu=1.0, m=5, cell=9.)],
      thorough=[dict(f0=f, dnu=d, m=9, cell=c) for f in (130., 170.) for d in (1., 2.5) for c in (15., 33., 70.)])
def mpc(ctx, f0, dnu, m, cell):
    """Binning in comoving distance: same, and redshifts one cell apart."""
    ac, c = ctx.mod('angular_coordinates'), ctx.mod('cosmo')
    a = ctx.array('a', (2, 1, m), -2, 2)
    nu = f0 - dnu * np.arange(m)
    d = np.array([float(ctx.concrete(c.nu_to_cdist(float(x)))) for x in nu])
    out, zs = ac.bin_lightcone_in_mpc(a, ctx.const(nu), cell)
    zs = num(ctx, zs)
    ctx.check(out.shape[2] == len(zs) and out.shape[2] in (int((d[-1] - d[0]) / cell), int((d[-1] - d[0]) / cell) + 1), 'one redshift per output slice')
    dz = np.array([float(ctx.concrete(c.z_to_cdist(float(x)))) for x in zs])
    ctx.close(dz, d[0] + cell * np.arange(len(zs)), 'redshifts one cell apart in comoving distance', tol=0.05)
    s = int(max(1, np.round(m / ((d[-1] - d[0]) / cell))))
    for k in range(len(zs)):
        x = np.interp(d[0] + cell * k, d, np.arange(m))
        if 0 < k and abs(x - round(x)) < 1e-4:
            continue
        w = window(int(x + 1e-9), s)
        if w[0] >= 0 and w[1] < m:
            ctx.reach('bin')
            ctx.close(out[:, :, k], sum(a[:, :, j] for j in range(w[0], w[1] + 1)) / s, 'mean over the bin', tol=1e-6)


@case(quick=[dict(n=3, z=8.0, box=50., fov=1.0, dth=8.0), dict(n=4, z=7.0, box=100., fov=0.7, dth=9.0), dict(n=3, z=9.0, box=40., fov=0.4, dth=3.0)],
      thorough=[dict(n=5, z=7.5, box=60., fov=1.0, dth=7.0), dict(n=4, z=12.0, box=30., fov=0.6, dth=5.0)])
def slice_to_angle(ctx, n, z, box, fov, dth):
    """Angular slice: resampled to dtheta, repeated periodically over the view."""
    ac, c = ctx.mod('angular_coordinates'), ctx.mod('cosmo')
    a = ctx.array('a', (n, n), -2, 2)
    ang = box / float(ctx.concrete(c.z_to_cdist(z))) * 180 / np.pi       # slice size in degrees
    k = int(ang * 60 / dth)
    k -= 1 - k % 2
    p = int(fov * 60 / dth)
    for order in (0, 1):
        out = ac.physical_slice_to_angular(a, z, box, fov, dth, order)
        ref = ac.resample_slice(a, k, order)
        i = np.arange(max(p, k)) % k
        ctx.close(out, ref[np.ix_(i, i)], 'resampled slice repeated over the field of view', tol=1e-6)
    size = float(ctx.concrete(c.deg_to_cdist(fov, z)))
    m = int(size / (box / n))
    m += 1 - m % 2
    cut = min(int(box * 0.8 / (box / n)), n)
    for order in (0, 1):
        back = ac.angular_slice_to_physical(a, z, fov, box / n, box * 0.8, order)
        ctx.close(back, ac.resample_slice(a, m, order)[:cut, :cut], 'resampled and cut to the physical size', tol=1e-6)
        # a coarser grid, without averaging before
        coarse = size / max(1, n // 2) * 1.01
        k = int(size / coarse)
        k += 1 - k % 2
        for pre in (True, False):
            back = ac.angular_slice_to_physical(a, z, fov, coarse, 3 * coarse, order, prefilter=pre)
            ctx.close(back, ac.resample_slice(a, k, order, prefilter=pre)[:3, :3], 'coarser grid', tol=1e-6)


@case(quick=[dict(n=5, m=3), dict(n=9, m=3), dict(n=7, m=4)], thorough=[dict(n=13, m=4)])
def unfiltered(ctx, n, m):
    """Without the averaging, a coarser slice takes the values of the finer one."""
    ac = ctx.mod('angular_coordinates')
    a = ctx.array('a', (n, n), -2, 2)
    i = np.arange(0, n, (n - 1) // (m - 1))
    for order in (0, 1):
        ctx.close(ac.resample_slice(a, m, order, prefilter=False), a[np.ix_(i, i)], 'values of the slice', tol=1e-6)
    # with it, those of the moving average
    w = int(np.round(n / m))
    out = ac.resample_slice(a, m, 1)
    for p in range(1, m - 1 if w % 2 else 0):
        for q in range(1, m - 1):
            lo, hi = window(i[p], w), window(i[q], w)
            ctx.close(out[p, q], a[lo[0]:lo[1] + 1, hi[0]:hi[1] + 1].sum() / w ** 2, 'mean over the coarse cell', tol=1e-6)


@case(quick=[dict(z=8.0, box=80., n=2, m=4, dnu=2., dth=12., order=0), dict(z=7.0, box=80., n=3, m=4, dnu=2., dth=8., order=1),
             dict(z=7.0, box=80., n=3, m=12, dnu=4., dth=6., order=1, zs=True), dict(z=9.0, box=300., n=2, m=5, dnu=9., dth=23., order=None)],
      thorough=[dict(z=9.0, box=60., n=4, m=6, dnu=1.5, dth=5., order=1)])
def observe(ctx, z, box, n, m, dnu, dth, order, zs=False):
    """End to end: physical light cone to observational coordinates."""
    t, ac, c = ctx.t2c, ctx.mod('angular_coordinates'), ctx.mod('cosmo')
    a = ctx.array('a', (n, n, m), -1, 1)
    kw = dict(input_box_size_mpc=box, verbose=False)
    if order is None:
        order = 2                                         # the documented default
    else:
        kw['order'] = order
    z_in = z
    if zs:                                                # the redshift of every slice instead of the lowest
        d = float(ctx.concrete(ctx.mod('cosmo').z_to_cdist(z))) + np.arange(m) * box / n
        z_in = ctx.const(num(ctx, ctx.mod('cosmo').cdist_to_z(ctx.const(d))))
    out, nu = t.physical_lightcone_to_observational(a, z_in, dnu, dth, **kw)
    binned, nu2 = ac.bin_lightcone_in_frequency(a, z, box, dnu)
    ctx.close(nu, nu2, 'frequencies', tol=1e-6)
    D = lambda x: float(ctx.concrete(c.z_to_cdist(float(x))))
    fov = np.degrees(box / D(z))
    p = int(fov * 60 / dth)
    ctx.check(out.shape == (p, p, len(num(ctx, nu))), 'field of view of the lowest redshift')
    for k, f in enumerate(num(ctx, nu)):
        zk = float(ctx.concrete(c.nu_to_z(float(f))))
        ctx.close(out[:, :, k], ac.physical_slice_to_angular(binned[:, :, k], zk, box, fov, dth, order), 'slice %d at its own redshift' % k, tol=1e-6)
    crop, _ = t.physical_lightcone_to_observational(a, z_in, dnu, dth, mode='crop', **kw)
    zmax = float(num(ctx, c.cdist_to_z(ctx.const(np.array([D(z), D(z) + (m - 1) * box / n]))))[-1])
    q = int(np.degrees(box / D(zmax)) * 60 / dth)
    lo = (p - q) // 2
    ctx.close(crop, out[lo:lo + crop.shape[0], lo:lo + crop.shape[1]], 'cropped to the view of the highest redshift', tol=1e-9)
    x = np.degrees(box / D(zmax)) * 60 / dth
    if abs(x - np.round(x)) > 1e-4:
        ctx.check(crop.shape[0] == q and crop.shape[1] == q, 'size of the cropped view')


@case(quick=[dict(f0=150., dnu=2., m=4, n=3, dth=12., order=0), dict(f0=140., dnu=1., m=4, n=4, dth=4., order=1)], thorough=[dict(f0=170., dnu=2., m=6, n=5, dth=6., order=1)])
def unobserve(ctx, f0, dnu, m, n, dth, order):
    """End to end: observational light cone to comoving coordinates."""
    t, ac, c = ctx.t2c, ctx.mod('angular_coordinates'), ctx.mod('cosmo')
    a = ctx.array('a', (n, n, m), -1, 1)
    nu = f0 - dnu * np.arange(m)
    out, zs, cell = t.observational_lightcone_to_physical(a, ctx.const(nu), dth, verbose=False, order=order)
    D = lambda x: float(ctx.concrete(c.nu_to_cdist(float(x))))
    fov = n * dth / 60.
    perp = np.radians(dth / 60.) * D(f0)
    par = D(nu[-1]) - D(nu[-2])
    cell = float(ctx.concrete(cell))
    ctx.close(cell, max(par, perp), 'coarsest resolution wins', tol=1e-3)
    ctx.close(num(ctx, zs)[0], float(ctx.concrete(c.nu_to_z(f0))), 'starts at the lowest redshift', tol=1e-3)
    k = int(fov * 60 / dth * perp / cell + 1e-9)
    ctx.check(out.shape[0] in (k, k - 1, k + 1) and out.shape[0] == out.shape[1] and out.shape[2] == len(num(ctx, zs)), 'shape')
    par = ctx.np.zeros((out.shape[0], out.shape[1], m))
    for i in range(m):
        zi = float(ctx.concrete(c.nu_to_z(float(nu[i]))))
        par[:, :, i] = ac.angular_slice_to_physical(a[:, :, i], zi, fov, cell, fov / float(ctx.concrete(c.angular_size_comoving(1., c.nu_to_z(f0)))), order)
    ref, _ = ac.bin_lightcone_in_mpc(par, ctx.const(nu), cell)
    ctx.close(out, ref, 'every frequency regridded at its own redshift', tol=1e-6)
