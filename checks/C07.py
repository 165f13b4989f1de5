"""Cosmological conversions and parameter setters."""
import numpy as np
from symex.harness import case

STUBS = ['scipy quad: Chebyshev polynomial of the real integral when the integrand is concrete and a limit symbolic; an unknown number per integrand otherwise '
         '(two integrals are identified when the solver proves their integrands proportional)',
         'cubic interp1d at symbolic points: the piecewise polynomial of the installed scipy spline']
OUTSIDE = 'redshifts outside the listed bands; magnitudes and other astropy-unit conversions; constants copied out of the module before a setter call'


def setup(ctx, om=0.27, h=0.7):
    c = ctx.mod('const')
    c.set_omega_matter(om)
    c.set_hubble_h(h)
    return c, ctx.mod('cosmo')


@case(quick=[{}])
def frequency(ctx):
    """Redshift <-> frequency <-> wavelength."""
    const, cosmo = ctx.mod('const'), ctx.mod('cosmo')
    z = ctx.real('z', 0.0, 100.0)
    nu = cosmo.z_to_nu(z)
    ctx.close(cosmo.nu_to_z(nu), z, 'redshift -> frequency -> redshift')
    ctx.close(nu * (1 + z), const.nu0, 'rest frequency')
    f = ctx.real('f', 15.0, 1420.0)
    ctx.close(cosmo.z_to_nu(cosmo.nu_to_z(f)), f, 'frequency -> redshift -> frequency')
    ctx.close(cosmo.nu_to_wavel(f) * f, const.c * 1e-3, 'wavelength', rtol=1e-9)
    z2 = ctx.real('z2', 0.0, 100.0)
    ctx.assume(z < z2)
    ctx.check(cosmo.z_to_nu(z2) < cosmo.z_to_nu(z), 'frequency falls with redshift')
    zi = ctx.array('zi', (3,), 0, 60, kind='int')
    a = cosmo.z_to_nu(zi)
    for i in range(3):
        ctx.close(a[i], const.nu0 / (1 + zi[i]), 'integer array')
    ctx.close(cosmo.nu_to_z(a), zi, 'integer array back')


@case(quick=[dict(lo=a, hi=b, om=o, h=h) for a, b, o, h in
             ((0.3, 0.34, .27, .7), (5.0, 5.2, .27, .7), (7.9, 8.1, .27, .7), (12.0, 12.2, .27, .7), (30.0, 31.0, .27, .7), (8.0, 8.2, .35, .5), (8.0, 8.2, .31, .68))],
      thorough=[dict(lo=a, hi=a + .25, om=o, h=h) for a in np.arange(5, 15, .25).tolist() for o, h in ((.27, .7), (.315, .674))] +
      [dict(lo=a, hi=a + .02, om=.27, h=.7) for a in (.02, .1, .5, .9, 1.5, 3.0)] + [dict(lo=a, hi=a + 1.0, om=.27, h=.7) for a in (20., 25., 40., 60., 80., 95.)], weight=2, limit=60)
def distance_roundtrip(ctx, lo, hi, om, h):
    """Comoving distance -> redshift -> comoving distance over a band."""
    const, cosmo = setup(ctx, om, h)
    ref = [float(ctx.concrete(cosmo.z_to_cdist(v))) for v in (lo, hi)]
    d = ctx.real('d', ref[0], ref[1])
    z = cosmo.cdist_to_z(d)
    ctx.ge(z, lo, 'not below the band', tol=2e-4)
    ctx.le(z, hi, 'not above the band', tol=2e-4)
    H = lambda x: 100 * h * np.sqrt(om * (1 + x) ** 3 + 1 - om)
    back = ctx.quad(lambda x: 3e5 / H(x) if isinstance(x, float) else None, 0.0, z)
    ctx.close(back, d, 'distance of that redshift', tol=2e-4 * ref[1])
    zz = ctx.real('z', lo, hi)
    fwd = cosmo.z_to_cdist(zz)
    ctx.close(fwd, ctx.quad(lambda x: 3e5 / H(x) if isinstance(x, float) else None, 0.0, zz), 'comoving distance', tol=1e-4)
    z2 = ctx.real('z2', lo, hi)
    ctx.assume(zz < z2)
    ctx.check(cosmo.z_to_cdist(zz) < cosmo.z_to_cdist(z2), 'distance grows with redshift')


@case(quick=[dict(lo=7, hi=8)], thorough=[dict(lo=8, hi=9), dict(lo=14, hi=15), dict(lo=5, hi=6)])
def scalar_array_integer(ctx, lo, hi):
    """Integers, floats, scalars and arrays give the same distance, age, ..."""
    const, cosmo = setup(ctx)
    z = ctx.int('z', lo, hi)
    zf = z * 1.0
    other = 7.25
    for name, tol in (('z_to_cdist', 1e-3), ('z_to_age', 1e-5), ('luminosity_distance', 1e-2)):
        f = getattr(cosmo, name)
        a = f(zf)
        ctx.close(f(z), a, name + ': integer', tol=tol)
        arr = f(ctx.np.array([other, zf]))
        ctx.close(arr[1], a, name + ': array', tol=tol)
        ctx.close(arr[0], f(other), name + ': array, first', tol=tol)
        ia = f(ctx.np.array([z, 7]))
        ctx.close(ia[0], a, name + ': integer array', tol=tol)
    nu = cosmo.z_to_nu(zf)
    ctx.close(cosmo.nu_to_cdist(nu), cosmo.z_to_cdist(zf), 'nu_to_cdist', tol=1e-2)
    di = ctx.int('di', 9200, 9202)
    ctx.close(cosmo.cdist_to_z(di), cosmo.cdist_to_z(di * 1.0), 'cdist_to_z: integer')
    ctx.close(cosmo.cdist_to_z(ctx.np.array([8000, di]))[1], cosmo.cdist_to_z(di * 1.0), 'cdist_to_z: integer array')


@case(quick=[dict(z=8.0), dict(z=0.5)], thorough=[dict(z=z) for z in (3.0, 6.0, 12.0, 25.0)])
def angular(ctx, z):
    """Angular sizes: inverse of one another, small-angle geometry."""
    const, cosmo = setup(ctx)
    om, h = ctx.real('om', 0.1, 0.6), ctx.real('h', 0.4, 1.0)
    const.set_omega_matter(om)
    const.set_hubble_h(h)
    d = ctx.real('d', 0.1, 500.0)
    deg = cosmo.angular_size_comoving(d, z)
    ctx.close(cosmo.deg_to_cdist(deg, z), d, 'size -> angle -> size', rtol=1e-9)
    DC = ctx.quad(lambda x: 3e5 / (100 * h * ctx.np.sqrt(om * (1 + x) ** 3 + 1 - om)), 0.0, z)
    ctx.close(deg * np.pi / 180 * DC, d, 'small-angle formula', rtol=1e-4)
    ctx.close(cosmo.luminosity_distance(z), (1 + z) * DC, 'luminosity distance', rtol=1e-6)
    ctx.close(cosmo.z_to_cdist(z), DC, 'comoving distance', rtol=1e-6)
    x = ctx.real('x', 0.0, 30.0)
    ctx.close(cosmo.p_to_c(cosmo.c_to_p(d, x), x), d, 'comoving -> proper -> comoving')
    ctx.close(cosmo.c_to_p(d, x) * (1 + x), d, 'proper size')


SETTERS = ('set_hubble_h', 'set_omega_matter', 'set_omega_baryon', 'set_omega_lambda', 'set_abundance_helium')


@case(quick=[dict(order=o) for o in ((0, 1, 2), (1, 0, 4), (2, 4, 3, 0), (3, 1), (1, 3, 2), (4, 2, 0, 1))],
      thorough=[dict(order=(a, b, c)) for a in range(5) for b in range(5) for c in range(5) if len({a, b, c}) == 3] + [dict(order=(0, 0, 1, 1, 0)), dict(order=(4, 3, 2, 1, 0))])
def setters(ctx, order):
    """After any history of setter calls every derived constant is consistent."""
    c, cosmo = ctx.mod('const'), ctx.mod('cosmo')
    h, om, ob, ol, he = c.h, c.Omega0, c.OmegaB, c.lam, c.abu_he_mass
    for i, k in enumerate(order):
        v = ctx.real('v%d' % i, (0.4, 0.1, 0.01, 0.4, 0.1)[k], (1.0, 0.6, 0.1, 0.9, 0.4)[k])
        getattr(c, SETTERS[k])(v)
        if k == 0:
            h = v
        elif k == 1:
            om, ol = v, 1 - v
        elif k == 2:
            ob = v
        elif k == 3:
            ol = v
        else:
            he = v
    eq = lambda a, b, l: ctx.close(a, b, l, tol=1e-9, rtol=1e-7)
    for n, v in (('h', h), ('Omega0', om), ('OmegaB', ob), ('lam', ol), ('abu_he_mass', he), ('abu_h_mass', 1 - he)):
        eq(getattr(c, n), v, n)
    if 3 in order and 1 not in order[order.index(3):]:
        eq(c.OmegaL, ol, 'OmegaL')      # set_omega_matter leaves it alone (pinned by the existing tests)
    eq(c.H0, 100 * h, 'H0')
    eq(c.q0, 0.5 * om - ol, 'q0')
    Hs = 100 * h * 1e5 / 3.086e24
    eq(c.H0cgs * 1e18, Hs * 1e18, 'Hubble constant in 1/s')
    rho = 3 * Hs ** 2 / (8 * np.pi * 6.6732e-8)
    eq(c.rho_crit_0 * 1e30, rho * 1e30, 'critical density')
    eq(c.rho_matter * 1e30, rho * 1e30 * om, 'matter density')
    eq(c.mean_molecular, 1 / (1 - he), 'mean molecular weight')
    nh = (1 - he) * ob * rho / 1.672661e-24
    eq(c.num_h_0 * 1e6, nh * 1e6, 'hydrogen number density')
    lam0 = 3e10 / 1.42e9
    eq(c.meandt, 3 * lam0 ** 3 / (32 * np.pi) * 2.85e-15 * 0.068 * nh / (1e7 / 3.086e24) * 1000, 'signal normalisation')
    z = ctx.real('z', 0.0, 30.0)
    E2 = om * (1 + z) ** 3 + ol
    for n, H in (('Hz', c.Hz(z)), ('hubble_parameter', cosmo.hubble_parameter(z))):
        ctx.ge(H, 0.0, n + ' positive')
        eq(H * H / 1e4, h * h * E2, n)
    D = cosmo.z_to_cdist(8.0)
    eq(D, 3e5 / (100 * h) * ctx.quad(lambda x: 1 / ctx.np.sqrt(om * (1 + x) ** 3 + ol), 0.0, 8.0), 'comoving distance')


@case(quick=[{}])
def virial(ctx):
    """Virial temperature <-> mass."""
    c, cosmo = ctx.mod('const'), ctx.mod('cosmo')
    z = 9.0
    T = ctx.real('T', 100.0, 1e6)
    M = cosmo.Tvir_to_M(T, z)
    ctx.close(cosmo.M_to_Tvir(M, z), T, 'temperature -> mass -> temperature', rtol=1e-6)
    T2 = ctx.real('T2', 100.0, 1e6)
    ctx.assume(T < T2)
    ctx.check(cosmo.Tvir_to_M(T2, z) > M, 'mass grows with temperature')
