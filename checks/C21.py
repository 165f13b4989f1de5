"""UV coverage: baselines, Earth rotation, gridding and antenna coordinates."""
import itertools
import numpy as np
from symex.harness import case

STUBS = ['sin and cos satisfy sin^2+cos^2=1 and are otherwise uninterpreted; comoving distances of redshifts listed are those of the package']
OUTSIDE = 'more antennas, integrations or cells than listed; baselines within 1e-6 of the edge of a uv cell; the tabulated antenna layouts'

C_CGS = 2.9979e10


def samples(ctx, uv, theta, n):
    """Cell (u mod n, v mod n) and whether the sample is on the grid [-n/2, n/2)^2, as lists of (inside, i, j) tests."""
    N = ctx.np
    half = n // 2

    def hit(u, v, i, j):
        ok = True
        for x, k in ((u, i), (v, j)):
            k = k - n if k >= (n + 1) // 2 else k       # frequency of the cell in DFT order
            ok = N.logical_and(ok, N.logical_and(x * theta > k - 0.5, x * theta < k + 0.5))
        return ok
    out = N.zeros((n, n)) + 0 * uv[0][0]
    for i, j in np.ndindex(n, n):
        s = 0.0
        for u, v in uv:
            s = s + N.where(hit(u, v, i, j), 1.0, 0.0)
        out[i, j] = s
    return out


def no_ties(ctx, uv, theta, n):
    """Samples are not within rounding of the edge of a cell (rounding of ties is free)."""
    for u, v in uv:
        for x in (u, v):
            for k in range(-n, n):
                ctx.assume(ctx.np.logical_or(x * theta > k + 0.5 + 1e-6, x * theta < k + 0.5 - 1e-6))


@case(quick=[dict(n=3), dict(n=2, nu=True)], thorough=[dict(n=4)])
def baselines(ctx, n, nu=False):
    """One baseline per pair of antennas, in wavelengths."""
    from astropy import units as u
    R, cm = ctx.mod('radio_telescope_layout'), ctx.mod('cosmo')
    x = ctx.array('x', (n, 3), -100, 100)
    for i in range(n):
        for j in range(i):
            ctx.assume(ctx.np.logical_or(x[i, 0] > x[j, 0] + 1e-3, x[i, 0] < x[j, 0] - 1e-3))
    f = ctx.real('nu', 50, 200) if nu else float(ctx.concrete(cm.z_to_nu(8.0)))
    for pos in (x * u.m, x / 1000 * u.km):
        b, k = R.from_antenna_config(pos, 8.0, nu=f) if nu else R.from_antenna_config(pos, 8.0)
        ctx.check(k == n, 'number of antennas')
        ctx.check(b.shape == (n * (n - 1) // 2, 3), 'one baseline per pair')
        for r, (i, j) in enumerate(itertools.combinations(range(n), 2)):
            ctx.close(b[r] * (C_CGS / 1e8), (x[i] - x[j]) * f, 'separation in wavelengths', tol=1e-3 * 2e4, rtol=0)
            ctx.close(b[r] * 299.79, (x[i] - x[j]) * f, 'separation in wavelengths', tol=1.0)
    p = R.antenna_positions_to_baselines(x)
    ctx.check(p.shape == (n * (n - 1), 3), 'all ordered pairs')
    for r, (i, j) in enumerate(itertools.permutations(range(n), 2)):
        ctx.close(p[r], x[i] - x[j], 'separation of an ordered pair', tol=1e-9)


@case(quick=[dict(several=False), dict(several=True)])
def rotation(ctx, several):
    """The Earth's rotation turns every baseline by the hour angle (15 degrees per hour, centred on the meridian)."""
    R = ctx.mod('radio_telescope_layout')
    N = ctx.np
    b = ctx.array('b', (2, 3), -50, 50)
    dec = ctx.real('dec', -90, 90)
    T, dt = 4.0, 1800.0
    steps = [1, 3, 8] if several else [5]
    got = R.earth_rotation_effect(b, np.array(steps) if several else steps[0], dt, T, dec)
    sd, cd = N.sin(N.deg2rad(dec)), N.cos(N.deg2rad(dec))
    for q, s in enumerate(steps):
        h = (-T / 2 + s * dt / 3600) * np.pi / 12
        g = got[q] if several else got
        for r in range(2):
            x, y, w = b[r]
            ctx.close(g[r, 0], np.sin(h) * x + np.cos(h) * y, 'u', tol=1e-6)
            ctx.close(g[r, 1], -sd * np.cos(h) * x + sd * np.sin(h) * y + cd * w, 'v', tol=1e-6)
            ctx.close(g[r, 2], cd * np.cos(h) * x - cd * np.sin(h) * y + sd * w, 'w', tol=1e-6)


@case(quick=[dict(n=4, nb=2, mirror=False), dict(n=4, nb=1, mirror=True), dict(n=3, nb=2, mirror=False), dict(n=5, nb=1, mirror=True)],
      thorough=[dict(n=6, nb=2, mirror=True), dict(n=5, nb=2, mirror=False), dict(n=4, nb=2, mirror=True), dict(n=4, nb=3, mirror=False)])
def gridding(ctx, n, nb, mirror):
    R, cm = ctx.mod('radio_telescope_layout'), ctx.mod('cosmo')
    box = 200.0
    theta = box / float(ctx.concrete(cm.z_to_cdist(8.0)))
    k = ctx.array('k', (nb, 3), -n, n)                 # in cells
    b = k / theta
    b0 = b.copy()
    uv = [(k[r, 0], k[r, 1]) for r in range(nb)]
    if mirror:
        uv = uv + [(-u, -v) for u, v in uv]
    no_ties(ctx, uv, 1.0, n)
    got = R.grid_uv_tracks(b, 8.0, n, boxsize=box, include_mirror_baselines=mirror)
    want = samples(ctx, uv, 1.0, n) / (2.0 if mirror else 1.0)
    ctx.check(got.shape == (n, n), 'shape')
    ctx.close(got, want, 'baselines per uv cell, zero frequency first', tol=1e-9)
    ctx.close(b, b0, 'baselines not modified')


@case(quick=[dict(mirror=False, steps=2), dict(mirror=True, steps=1), dict(mirror=True, steps=1, api='lightcone')], thorough=[dict(mirror=True, steps=2), dict(mirror=False, steps=2, n=5)])
def daily(ctx, mirror, steps, n=4, api='daily'):
    """The map is the mean over the integrations of the gridded, rotated baselines."""
    from astropy import units as u
    R, S, cm = ctx.mod('radio_telescope_layout'), ctx.mod('radio_telescope_noise'), ctx.mod('cosmo')
    z, box, dec = 8.0, 200.0, -30.0
    D, nu = float(ctx.concrete(cm.z_to_cdist(z))), float(ctx.concrete(cm.z_to_nu(z)))
    cells = D / box * 299.79 / nu                        # metres per uv cell
    x = ctx.array('x', (2, 3), -n / 2, n / 2)
    ctx.assume(x[0, 0] > x[1, 0] + 1e-3)
    pos = x * cells * u.m
    b = x[0] - x[1]
    T, dt = steps * 0.5, 1800.0
    uv = []
    sd, cd = np.sin(np.deg2rad(dec)), np.cos(np.deg2rad(dec))
    for s in range(1, steps + 1):
        h = (-T / 2 + s * dt / 3600) * np.pi / 12
        p, q = np.sin(h) * b[0] + np.cos(h) * b[1], -sd * np.cos(h) * b[0] + sd * np.sin(h) * b[1] + cd * b[2]
        uv += [(p, q)] + ([(-p, -q)] if mirror else [])
    no_ties(ctx, uv, 1.0, n)
    for p, q in uv:
        for t in (p, q):
            for e in range(-n, n):
                ctx.assume(ctx.np.logical_or(t > e + 0.5 + 1e-3, t < e + 0.5 - 1e-3))
    kw = dict(total_int_time=T, int_time=dt, boxsize=box, declination=dec)
    if api == 'lightcone':
        got, N = S.make_uv_map_lightcone(n, np.array([z, z]), subarray_type=pos, **kw)
        ctx.check(got.shape == (n, n, 2), 'shape')
        maps = [got[:, :, 0], got[:, :, 1]]
    else:
        got, N = R.get_uv_daily_observation(n, z, pos, include_mirror_baselines=mirror, verbose=False, **kw)
        got2, _ = S.get_uv_map(n, z, subarray_type=pos, include_mirror_baselines=mirror, verbose=False, **kw)
        maps = [got, got2]
    ctx.check(N == 2, 'number of antennas')
    want = samples(ctx, uv, 1.0, n) / (steps * (2.0 if mirror else 1.0))
    for m in maps:
        ctx.close(m, want, 'mean number of samples per integration', tol=1e-6)


@case(quick=[dict(n=5), dict(n=6)])
def max_baseline(ctx, n):
    """uv cells beyond the longest baseline are empty, the others unchanged."""
    from astropy import units as u
    S, cm = ctx.mod('radio_telescope_noise'), ctx.mod('cosmo')
    z, box = 8.0, 200.0
    D = float(ctx.concrete(cm.z_to_cdist(z)))
    cell = D / box * 0.21 * (1 + z)                      # metres per uv cell
    cut = ctx.real('cut', 0.05, n)
    for i, j in np.ndindex(n, n):
        r = float(np.hypot(i, j))
        ctx.assume(ctx.np.logical_or(cut > r + 1e-3, cut < r - 1e-3))
    pos = np.array([[0, 0, 0], [1.3, 0.4, -0.7], [-0.6, 1.7, 0.9], [2.2, -1.2, 0.3]]) * cell * u.m
    kw = dict(subarray_type=pos, total_int_time=6.0, int_time=3600.0, boxsize=box, verbose=False)
    full, _ = S.get_uv_map(n, z, **kw)
    for b in (cut * cell / 1000, cut * cell * u.m):
        got, _ = S.get_uv_map(n, z, max_baseline=b, **kw)
        f = np.fft.fftfreq(n, 1.0 / n)
        for i, j in np.ndindex(n, n):
            r2 = f[i] ** 2 + f[j] ** 2
            ctx.close(got[i, j], ctx.np.where(cut ** 2 < r2, 0.0, full[i, j]), 'cut at the longest baseline', tol=1e-6)
    k = S.max_baseline_to_max_k(z, cut * cell / 1000)
    ctx.close(getattr(k, 'value', k) * box / np.pi, cut, 'k of the longest baseline', tol=1e-6)


@case(quick=[dict(), dict(at=(-26.7, 116.8)), dict(at=(50.0, -20.0))])
def coordinates(ctx, at=None):
    """Local to geocentric to interferometric coordinates: rigid, with the axes of the pointing formula."""
    R = ctx.mod('radio_telescope_layout')
    N = ctx.np
    e = ctx.array('e', (2, 3), -10, 10)
    lat, lon = at or (ctx.real('lat', -90, 90), ctx.real('lon', -180, 180))
    o = ctx.array('o', (3,), -10, 10)
    sl, cl = N.sin(N.deg2rad(lat)), N.cos(N.deg2rad(lat))
    g = R.enu_to_ecef(e, lat, lon, o)
    x = R.ecef_to_xyz(g, lon, o)
    d = e[0] - e[1]
    a, b = g[0] - g[1], x[0] - x[1]
    so, co = N.sin(N.deg2rad(lon)), N.cos(N.deg2rad(lon))
    ctx.close(a[0], -so * d[0] - sl * co * d[1] + cl * co * d[2], 'geocentric x', tol=1e-6)
    ctx.close(a[1], co * d[0] - sl * so * d[1] + cl * so * d[2], 'geocentric y', tol=1e-6)
    ctx.close(a[2], cl * d[1] + sl * d[2], 'geocentric z', tol=1e-6)
    ctx.close(b[0], co * a[0] + so * a[1], 'towards the meridian', tol=1e-6)
    ctx.close(b[1], -so * a[0] + co * a[1], 'towards the east', tol=1e-6)
    ctx.close(b[2], a[2], 'towards the pole', tol=1e-6)
    z = R.enu_to_ecef(e * 0, lat, lon, o)
    ctx.close(z[0], o, 'the origin of the local frame', tol=1e-6)


@case(quick=[dict(lon=lo, lat=la) for lo, la in ((20.0, -30.0), (-100.0, 60.0))])
def geographic(ctx, lon, lat):
    from astropy import units as u
    R = ctx.mod('radio_telescope_layout')
    Re = 6371.0
    ra, dec = np.deg2rad(lon), np.deg2rad(lat)
    n = np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)])
    for q in (1.0, u.deg):
        p = R.geographic_to_cartesian_coordinate_system(np.array([[lon, lat]]) * q)
        ctx.close(p[0] / 1e3, ctx.const(Re * n), 'position on the sphere', tol=1e-6)
    r = ctx.real('r', 5, 15)                              # thousands of km from the centre
    x = r * ctx.const(1e3 * n).reshape(1, 3)
    for q in (1e3, 1e3 * u.m, 1.0 * u.km):
        a = R.cartesian_to_geographic_coordinate_system(x * q)
        ctx.close(a[0, 0], lon, 'longitude', tol=1e-6)
        norm = ctx.np.sqrt(((x[0] * 1e3) ** 2).sum())
        ctx.close(a[0, 1], ctx.np.arcsin(x[0, 2] * 1e3 / norm) * 180 / np.pi, 'latitude', tol=1e-6)
        ctx.close(a[0, 2] / 1e6, r - Re / 1e3, 'height above the sphere', tol=1e-6)
