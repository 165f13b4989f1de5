"""Thermal noise of a radio interferometer: SEFD, visibility noise, noise maps, cubes and light cones."""
import numpy as np
from symex.harness import case

STUBS = ['numpy.random: unconstrained draws', 'get_uv_map of one redshift returns an unconstrained map where it is not given (C21)',
         'comoving distances of the redshifts listed are those of the package']
OUTSIDE = 'smoothing of the uv map (suppress_sharp_features_uv_map); light cones with a single redshift; the 1D noise power spectrum'

KB, C = 1.3806503e-23, 2.99792458e8
ANT = np.array([[0., 0., 0.], [300., 40., 0.], [100., 500., 0.]])


def default_sefd(N, nu, T=None, D=40.0, ep=None):
    T = 60.0 * (300.0 / nu) ** 2.55 + 100.0 if T is None else T
    ep = N.where(nu > 110.0, (110.0 / nu) ** 2, 1.0 + 0 * nu) if ep is None else ep
    return 2 * KB * T / (ep * np.pi * D * D / 4) / 1e-26


@case(quick=[dict(kind=k) for k in ('default', 'numbers', 'functions', 'array')])
def sefd(ctx, kind):
    """SEFD = 2 k T_sys / A_eff, with the default sky plus receiver temperature and aperture efficiency."""
    S = ctx.mod('radio_telescope_sensitivity')
    N = ctx.np
    nu = ctx.real('nu', 40, 300)
    D, T, e = ctx.real('D', 5, 100), ctx.real('T', 10, 5000), ctx.real('e', 0.05, 1)
    if kind == 'array':
        nu2 = ctx.array('n', (3,), 40, 300)
        got = S.get_SEFD(nu2)
        ctx.check(got.shape == (3,), 'one value per frequency')
        for i in range(3):
            ctx.close(got[i] / default_sefd(N, nu2[i]), 1.0, 'each frequency', tol=1e-4)
        return
    if kind == 'default':
        got, want = S.get_SEFD(nu, D_station=D), default_sefd(N, nu, D=D)
    elif kind == 'numbers':
        got, want = S.get_SEFD(nu, T_sys=T, D_station=D, ep_aperture=e), default_sefd(N, nu, T, D, e)
    else:
        got = S.get_SEFD(nu, T_sys=lambda f: T + f, D_station=D, ep_aperture=lambda f: e * f / 300)
        want = default_sefd(N, nu, T + nu, D, e * nu / 300)
    ctx.check(np.ndim(got) == 0, 'a number for a number')
    ctx.close(got / want, 1.0, 'SEFD', tol=1e-4)


@case(quick=[dict()])
def sefd_table(ctx):
    """Tabulated SEFD: the table at its nodes, log-linear in between and beyond."""
    S = ctx.mod('radio_telescope_sensitivity')
    N = ctx.np
    t = ctx.array('t', (4,), 100, 9000)
    f = np.array([50., 100., 150., 300.])
    got = S.get_SEFD(f, sefd_data=t, nu_data=f)
    for i in range(4):
        ctx.close(N.log10(got[i]), N.log10(t[i]), 'value of the table', tol=1e-6)
    q = ctx.real('q', 20, 400)
    g = N.log10(S.get_SEFD(q, sefd_data=np.array([8000., 5000., 2500., 3000.]), nu_data=f))
    L = np.log10([8000., 5000., 2500., 3000.])
    want = N.where(q < 100, L[0] + (L[1] - L[0]) * (q - 50) / 50, N.where(q < 150, L[1] + (L[2] - L[1]) * (q - 100) / 50, L[2] + (L[3] - L[2]) * (q - 150) / 150))
    ctx.close(g, want, 'log-linear', tol=1e-6)
    try:
        S.get_SEFD(100.0, sefd_data=t)
        ctx.check(False, 'a table needs its frequencies')
    except ValueError:
        pass


@case(quick=[dict()])
def rms(ctx):
    """Visibility and image noise scale with bandwidth, integration, observing time and number of baselines."""
    S = ctx.mod('radio_telescope_sensitivity')
    N = ctx.np
    z, dnu, t, ti = ctx.real('z', 5, 25), ctx.real('dnu', 0.01, 20), ctx.real('t', 10, 5000), ctx.real('ti', 1, 100)
    n, T, D = ctx.int('n', 2, 600), ctx.real('T', 10, 5000), ctx.real('D', 5, 100)
    sig, vis = S.sigma_noise_radio(z, dnu, t, ti, N_ant=n, verbose=False, T_sys=lambda nu: T * nu / 100, D_station=D, ep_aperture=0.5)
    nu = 1420.0 / (1 + z)
    sf = default_sefd(N, nu, T * nu / 100, D, 0.5)
    ctx.check(vis > 0, 'positive')
    ctx.check(sig > 0, 'positive')
    ctx.close(vis ** 2 * 2 * dnu * 1e6 * ti / (1e6 * sf) ** 2, 1.0, 'noise of a visibility', tol=1e-4)
    ctx.close(sig ** 2 * (n * (n - 1) / 2.0) * 3600 * t / ti / vis ** 2, 1.0, 'noise of the image', tol=1e-4)
    tab = S.sigma_noise_radio(z, dnu, t, ti, N_ant=n, verbose=False, sefd_data=np.array([2000., 3000.]), nu_data=np.array([50., 250.]))
    tab2 = S.get_SEFD(nu, sefd_data=np.array([2000., 3000.]), nu_data=np.array([50., 250.]))
    ctx.close(tab[1] ** 2 * 2 * dnu * 1e6 * ti / (1e6 * tab2) ** 2, 1.0, 'tabulated SEFD', tol=1e-4)


@case(quick=[dict(z=7.0), dict(z=9.5)])
def jansky(ctx, z):
    """Brightness temperature and flux density: inverse of each other, Rayleigh-Jeans times the solid angle of a pixel."""
    S, cm = ctx.mod('radio_telescope_sensitivity'), ctx.mod('cosmo')
    a = ctx.array('a', (2, 2), -100, 100)
    box = ctx.real('box', 20, 1000)
    n = ctx.int('n', 1, 512)
    chi = float(ctx.concrete(cm.z_to_cdist(z)))
    nu = float(ctx.concrete(cm.z_to_nu(z))) * 1e6
    for k, cells in ((dict(ncells=n), n), (dict(), 2)):
        f = S.kelvin_2_jansky(a, z, boxsize=box, **k)
        b = S.jansky_2_kelvin(a, z, boxsize=box, **k)
        want = 2 * KB * nu * nu / C / C / 1e-26 * 1e3 * (box / chi / cells) ** 2
        ctx.close(S.kelvin_jansky_conversion(cells, z, boxsize=box) * cells * cells, want * cells * cells, 'conversion factor', tol=1e-4 * 1e3)
        ctx.close(f * cells * cells, want * a * cells * cells, 'kelvin to jansky', tol=1e-4 * 1e5)
        ctx.close(b * want, a, 'jansky to kelvin', tol=1e-3)
        ctx.close(S.jansky_2_kelvin(f, z, boxsize=box, **k), a, 'inverse', tol=1e-6)


def taper(n):
    from scipy.signal import windows
    w = windows.blackmanharris(n)
    return np.fft.ifftshift(np.outer(w, w))


def coverage(ctx, name, shape, dark, values, lo=0.02, hi=500.0, off=0.0):
    """Coverage with any of the cells `dark` not sampled and symbolic values in the cells `values`."""
    v = ctx.array(name, shape, lo, hi, free=values, rest=np.round(3 + 2 * np.sin(np.arange(int(np.prod(shape)))), 2).reshape(shape))
    out = ctx.np.zeros(shape) + v
    for i in dark:
        if ctx.bool('%s-dark%d' % (name, i)):
            out[np.unravel_index(i, shape)] = off
    return out


def expected_map(ctx, uv, vis, scale, weight='natural'):
    """Noise map for the next draws of the random generator."""
    N = ctx.np
    n = uv.shape[0]
    re, im = N.random.normal(0.0, vis, (n, n)), N.random.normal(0.0, vis, (n, n))
    w = taper(n)
    for i, j in np.ndindex(n, n):
        g = w[i, j] if uv[i, j] >= 0.01 else 0.0
        if weight == 'natural' and g:
            g = g / N.sqrt(uv[i, j])
        re[i, j], im[i, j] = re[i, j] * g, im[i, j] * g
    return N.fft.ifft2(re + 1j * im).real * scale


@case(quick=[dict(n=3), dict(n=4), dict(n=3, weight='uniform'), dict(n=3, free='uv'), dict(n=4, free='scale')], thorough=[dict(n=5), dict(n=6), dict(n=4, free='uv'), dict(n=5, free='scale')])
def noise_map(ctx, n, weight='natural', free='draws'):
    """Visibility noise divided by the root of the coverage, nothing where the
    plane is not sampled, tapered around zero frequency, for every coverage and draw."""
    T = ctx.mod('radio_telescope_noise')
    T.subarray_type_to_antxyz = lambda s, verbose=True: (ANT, len(ANT))
    N = ctx.np
    uv = coverage(ctx, 'uv', (n, n), (0, 1, n + 2), (5, 7) if free == 'uv' else (), off=0.0 if free != 'draws' else 0.005)
    dnu, t, ti = (ctx.real('dnu', 0.1, 20), ctx.real('t', 100, 5000), 10.0) if free == 'scale' else (0.2, 900.0, 10.0)
    before = N.array(uv)
    ctx.random(free != 'draws')
    got = T.noise_map(n, 9.0, dnu, obs_time=t, boxsize=100.0, int_time=ti, uv_map=uv, uv_weighting=weight, T_sys=500.0, verbose=False)
    ctx.random(free != 'draws')
    vis = 1e6 * default_sefd(N, np.array(142.0), 500.0) / N.sqrt(2 * dnu * 1e6 * ti)
    want = expected_map(ctx, uv, vis, N.sqrt(ti / 3600. / t), weight)
    ctx.check(got.shape == (n, n), 'shape')
    ctx.close(got, want, 'noise map', tol=1e-2)
    ctx.close(uv, before, 'the coverage is not modified', tol=0)


@case(quick=[dict(n=3)])
def cubes(ctx, n):
    """Every slice of a noise cube is an independent noise map in mK."""
    T, S, cm = ctx.mod('radio_telescope_noise'), ctx.mod('radio_telescope_sensitivity'), ctx.mod('cosmo')
    T.subarray_type_to_antxyz = lambda s, verbose=True: (ANT, len(ANT))
    N = ctx.np
    z, box, t = 9.0, 100.0, 1000.0
    uv = coverage(ctx, 'uv', (n, n), (0, 4), (), off=0.005)
    chi = float(ctx.concrete(cm.z_to_cdist(z)))
    nu = [float(ctx.concrete(cm.z_to_nu(cm.cdist_to_z(chi + d)))) for d in (-box / 2, box / 2)]
    for depth in (0.3, None):
        ctx.random()
        got = T.noise_cube_coeval(n, z, depth_mhz=depth, obs_time=t, boxsize=box, uv_map=uv, T_sys=500.0, verbose=False)
        ctx.check(got.shape == (n, n, n), 'shape')
        ctx.random()
        d = depth or (nu[0] - nu[1]) / n
        vis = 1e6 * default_sefd(N, np.array(142.0), 500.0) / np.sqrt(2 * d * 1e6 * 10.0)
        for i in range(n):
            want = expected_map(ctx, uv, vis, np.sqrt(10.0 / 3600. / t))
            ctx.close(got[:, :, i], S.jansky_2_kelvin(want, z, boxsize=box, ncells=n), 'slice', tol=1e-3, rtol=1e-4)


@case(quick=[dict(kind='list'), dict(kind='array'), dict(kind='cube')])
def lightcones(ctx, kind):
    """Every slice of a noise light cone has the coverage, channel width and frequency of its redshift."""
    T, S, cm = ctx.mod('radio_telescope_noise'), ctx.mod('radio_telescope_sensitivity'), ctx.mod('cosmo')
    T.subarray_type_to_antxyz = lambda s, verbose=True: (ANT, len(ANT))
    N = ctx.np
    n, box, t = 3, 100.0, 1000.0
    if kind == 'cube':
        chi = float(ctx.concrete(cm.z_to_cdist(9.0)))
        zs = [float(ctx.concrete(cm.cdist_to_z(chi + d))) for d in (-box / 2, 0.0, box / 2)]
    else:
        zs = [7.0, 7.5, 9.0]
    uv = coverage(ctx, 'uv', (3, n, n), (1, 13), (), off=0.005)

    def g(ncells, z, *a, **k):
        i = int(np.argmin([abs(float(z) - q) for q in zs]))
        return uv[i].copy(), 3
    T.get_uv_map = g
    ctx.random()
    k = dict(obs_time=t, boxsize=box, T_sys=500.0, verbose=False, n_jobs=1)
    if kind == 'cube':
        got = T.noise_cube_lightcone(n, 9.0, **k)
    else:
        got = T.noise_lightcone(n, zs if kind == 'list' else np.array(zs), **k)
    ctx.check(got.shape == (n, n, 3), 'shape')
    ctx.random()
    nu = [float(ctx.concrete(cm.z_to_nu(q))) for q in zs]
    for i in range(3):
        d = abs(nu[min(i + 1, 2)] - nu[i]) if i < 2 else abs(nu[2] - nu[1])
        vis = 1e6 * default_sefd(N, np.array(1420.0 / (1 + zs[i])), 500.0) / np.sqrt(2 * d * 1e6 * 10.0)
        want = expected_map(ctx, uv[i], vis, np.sqrt(10.0 / 3600. / t))
        ctx.close(got[:, :, i], S.jansky_2_kelvin(want, zs[i], boxsize=box, ncells=n), 'slice %d' % i, tol=1e-3, rtol=1e-4)


@case(quick=[dict(n=3), dict(n=4)], thorough=[dict(n=5), dict(n=6)])
def response(ctx, n):
    """The image of an incomplete coverage keeps sampled modes and removes the others, slice by slice."""
    T = ctx.mod('radio_telescope_noise')
    N = ctx.np
    uv = coverage(ctx, 'uv', (n, n), (0, 5) if n == 3 else (0, 1, 5, n * n - 1), (2, 3), 0.001, 3)
    img = ctx.array('a', (n, n), -10, 10)
    before = N.array(img)
    got = T.apply_uv_response_on_image(img, uv)
    want = N.fft.ifft2(N.fft.fft2(img) * N.where(uv == 0, 0.0, 1.0)).real
    ctx.close(got, want, 'sampled modes', tol=1e-6)
    ctx.close(img, before, 'the image is not modified', tol=0)
    cube = N.zeros((n, n, 2)) + 0 * img[0, 0]
    cube[:, :, 0] = img
    cube[:, :, 1] = 2 - img.T
    out = T.apply_uv_response_on_coeval(cube, 9.0, boxsize=100.0, uv_map=uv)
    ctx.check(out.shape == cube.shape, 'shape of the cube')
    ctx.close(out[:, :, 0], want, 'first slice', tol=1e-6)
    ctx.close(out[:, :, 1], N.fft.ifft2(N.fft.fft2(2 - img.T) * N.where(uv == 0, 0.0, 1.0)).real, 'second slice', tol=1e-6)
    seen = []

    def g(ncells, z, *a, **k):
        seen.append(ncells)
        return uv, 3
    T.get_uv_map = g
    out = T.apply_uv_response_on_coeval(cube, 9.0, boxsize=100.0)
    ctx.check(seen == [n], 'coverage made for the cells of a slice')
    ctx.close(out[:, :, 0], want, 'own coverage', tol=1e-6)


@case(quick=[dict()])
def weighting(ctx):
    """Weights of the visibilities: natural, uniform and Briggs."""
    T, S = ctx.mod('radio_telescope_noise'), ctx.mod('radio_telescope_sensitivity')
    N = ctx.np
    uv = coverage(ctx, 'uv', (2, 2), (0, 3), (0, 1, 2, 3))
    re, im = ctx.array('re', (2, 2), -10, 10), ctx.array('im', (2, 2), -10, 10)
    noise = re + 1j * im
    on = uv > 0
    root = N.sqrt(N.where(on, uv, 1) * 1.0)
    for out, f in ((T.apply_uv_response_noise(noise + 0, uv), 1 / root), (T.apply_uv_response_noise(noise + 0, uv, uv_weighting='uniform'), 1.0 + 0 * root), (S.apply_uv_response(noise, uv), 1 / root)):
        ctx.close(out.real, N.where(on, re * f, 0.0), 'real part', tol=1e-5)
        ctx.close(out.imag, N.where(on, im * f, 0.0), 'imaginary part', tol=1e-5)
    eps, R = 1e-6, ctx.real('R', -2, 2)
    w = N.array([[3.0, 0.0], [7.0, 12.0]])
    ref = (3 + 7 + 12) / 3 + eps
    out = T.apply_uv_response_noise_briggs(re, w, robust=R, epsilon=eps)
    for i, j in np.ndindex(2, 2):
        q = float([[3.0, 0.0], [7.0, 12.0]][i][j])
        ctx.close(out[i, j], re[i, j] / N.sqrt(q / (1 + (q / ref) ** 2 * 10 ** (2 * R)) + eps) if q else 0.0, 'Briggs', tol=1e-6)


@case(quick=[dict(n=4), dict(n=5)])
def wrapped(ctx, n):
    """The wrapped inverse transform is the centre of the transform of the repeated plane."""
    T = ctx.mod('radio_telescope_noise')
    N = ctx.np
    re, im = ctx.array('re', (n, n), -10, 10), ctx.array('im', (n, n), -10, 10, free=(0, 3))
    h = n // 2
    got = T.ifft2_wrap(re + 1j * im)
    ctx.check(got.shape == (n, n), 'shape')
    full = N.zeros((n, n)) + 0 * (re + 1j * im)
    k = (np.arange(n) + h) % n
    s = N.fft.ifft2((re + 1j * im)[np.argsort(k)][:, np.argsort(k)])
    for i, j in np.ndindex(n, n):
        p, q = i + h, j + h                         # only even pixels carry signal
        if p % 2 == 0 and q % 2 == 0:
            full[i, j] = s[(p // 2) % n, (q // 2) % n]
    ctx.close(got.real, full.real, 'real part', tol=1e-6)
    ctx.close(got.imag, full.imag, 'imaginary part', tol=1e-6)


@case(quick=[dict(n=n) for n in (4, 5)])
def windows_nd(ctx, n):
    """Windows of two and three dimensions are products of the one-dimensional window."""
    T = ctx.mod('radio_telescope_noise')
    s = 1.7
    from scipy.signal import windows as W
    for name, w in [(k, getattr(W, k)(n)) for k in ('blackmanharris', 'blackman', 'barthann', 'bartlett', 'hamming', 'hann')] + [('kaiser', W.kaiser(n, 30)), ('gaussian', None)]:
        if w is None:
            x = np.arange(n) - (n - 1) / 2
            w = ctx.np.exp(-x * x / (2 * s * s))
        one = T.signal_window(n, name, extra_param=s if name == 'gaussian' else 30)
        two = T.signal_window(n, name, ndim=2, extra_param=s if name == 'gaussian' else 30)
        three = T.signal_window(n, name, ndim=3, extra_param=s if name == 'gaussian' else 30)
        ctx.close(one, w, name, tol=1e-9)
        for i in range(n):
            for j in range(n):
                ctx.close(two[i, j], one[i] * one[j], name + ' 2D', tol=1e-9)
                ctx.close(three[i, j, :], one[i] * one[j] * one, name + ' 3D', tol=1e-9)


@case(quick=[dict(nu=150.0, B=None), dict(nu=120.0, B=5.0, array=True)], thorough=[dict(nu=90.0, B=8.0), dict(nu=180.0, B=None, array=True)])
def spectrum_error(ctx, nu, B, array=False):
    """The analytical error of the power spectrum (Mellema et al. 2013, equation 11) for any array, time and wave number."""
    M, cm = ctx.mod('power_spectrum_noise'), ctx.mod('cosmo')
    N = ctx.np
    t, R, A, T, e = ctx.real('t', 10, 5000), ctx.real('R', 200, 5000), ctx.real('A', 50, 3000), ctx.real('T', 1e4, 1e7), ctx.real('e', 0.05, 2)
    n, l = ctx.int('n', 5, 600), ctx.int('l', 0, 4)
    b = 10.0 if B is None else B
    d = dict() if B is None else dict(B=b)
    D = float(ctx.concrete(cm.nu_to_cdist(nu)))
    dD = abs(float(ctx.concrete(cm.nu_to_cdist(nu + b))) - D)
    ks = ctx.array('k', (2,), 0.01, 3) if array else ctx.real('k', 0.01, 3)
    ls = C * 1e-6 / nu

    def square(k, T, A, n, R, e, l, t):
        """Square of the expected error."""
        om = ls ** 2 / A
        return k ** 3 * D ** 2 * dD * om * 4 / np.pi ** 2 * (T ** 2 / (b * 1e6 * t * 3600)) ** 2 * (np.pi * R ** 2 * A / (n * A) ** 2) ** 2 / e * (2 * l + 1)

    def same(got, want, label):
        ctx.check(got > 0, label + ' positive')
        ctx.close(got ** 2 / want, 1.0, label, tol=3e-3)  # speed of light 3e5 km/s
    got = M.noise_error_ps(nu, ks, t, Rmax=R, Aeff=A, Nstat=n, Tsys=T, epsilon=e, multipole=l, **d)
    fn = M.noise_error_ps(nu, ks, t, Rmax=R, Aeff=lambda f: A * f / nu, Nstat=n, Tsys=lambda f: T * nu / f, epsilon=e, multipole=l, **d)
    df = M.noise_error_ps(nu, ks, t, **d)
    dA, dT = 526.0 * (nu / 150.0) ** (-2), (140 + 60 * (nu / 300.0) ** -2.55) * 1000
    for i in range(2) if array else (None,):
        at = lambda v: v if i is None else v[i]
        same(at(got), square(at(ks), T, A, n, R, e, l, t), 'error')
        same(at(fn), square(at(ks), T, A, n, R, e, l, t), 'error with functions of frequency')
        same(at(df), square(at(ks), dT, dA, 48, 1500.0, 1, 0, t), 'default array')
