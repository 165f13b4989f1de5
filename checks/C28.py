"""Lyman-alpha optical depth and transmission."""
import numpy as np
from symex.harness import case

STUBS = ['the Faddeeva function is an unknown function of its argument (equal arguments, equal values)', 'exp and log: unknown monotone inverse functions',
         'the cosmology is Planck18 of astropy, at the redshifts listed']
OUTSIDE = 'the numerical values of the Voigt profile; windows longer than the box; optical depths so large that exp(-tau) underflows; absolute normalisation of tau_nu_lyA'

MPC = 3.0856775814913674e24


def cosmology():
    from astropy.cosmology import Planck18
    return Planck18


def fgpa(ctx, cosmo, z, x, d, f=0.416, lam=1216.0, k=1.0, X=0.76):
    from astropy import constants as c, units as u
    n = X * float((cosmo.Ob0 * cosmo.critical_density0 / (c.m_p + c.m_e)).to('1/cm^3').value)
    H = float(cosmo.H(z).to('1/s').value)
    return 1.344e-7 * k * (f / 0.416) * (lam / 1216.0) / H * (1 + z) ** 3 * n * x * (1 + d)


@case(quick=[dict(z=5.5), dict(z=7.0)])
def gunn_peterson(ctx, z):
    """Fluctuating Gunn-Peterson optical depth of every cell."""
    from astropy import units as u
    L, cosmo = ctx.mod('lyman_alpha_transmission'), cosmology()
    s = (2, 1, 2)
    x, d = ctx.array('x', s, 0, 1e-4), ctx.array('d', s, -0.9, 0.99)
    k, f, lam, X = ctx.real('k', 0.1, 2), ctx.real('f', 0.1, 1), ctx.real('lam', 900, 1300), ctx.real('X', 0.5, 1)
    x0, d0 = ctx.np.array(x), ctx.np.array(d)
    ctx.close(L.tau_nu_lyA_FGPA(z, x, d, cosmo=cosmo), fgpa(ctx, cosmo, z, x, d), 'default parameters', tol=1e-4 * 30)
    for l in (lam, lam * u.Angstrom, lam / 10 * u.nm):
        got = L.tau_nu_lyA_FGPA(z, x, d, f_alpha=f, lambda_alpha=l, k_res=k, X_H=X, cosmo=cosmo)
        ctx.check(got.shape == s, 'shape')
        ctx.close(got, fgpa(ctx, cosmo, z, x, d, f, lam, k, X), 'optical depth', tol=1e-4 * 60)
    rho = ctx.array('r', s, 1.5, 9)
    mean = rho.sum() / 4
    ctx.close(L.tau_nu_lyA_FGPA(z, x, rho, cosmo=cosmo) * mean, fgpa(ctx, cosmo, z, x, rho * 0) * rho, 'density instead of contrast', tol=1e-4 * 300)
    ctx.close(x, x0, 'fraction not modified', tol=0)
    ctx.close(d, d0, 'contrast not modified', tol=0)


def along(ctx, a, axis):
    return ctx.np.moveaxis(a, axis, 2)


LOS = [dict(shape=(1, 2, 4), axis=2), dict(shape=(4, 1, 2), axis=0), dict(shape=(2, 3, 1), axis=1), dict(shape=(2, 1, 5), axis=2)]


@case(quick=[dict(cells=c, **s) for s in LOS for c in (1, 2, 3) if c <= s['shape'][s['axis']]], thorough=[dict(cells=c, **s) for s in LOS for c in (4, 5) if c <= s['shape'][s['axis']]] + [dict(shape=(1, 1, 8), axis=2, cells=c) for c in (6, 7, 8)])
def effective(ctx, cells, shape, axis):
    """Effective optical depth: -ln of the mean transmission in the periodic window around each cell, on the grid of the input, for any axis and unit."""
    from astropy import units as u
    L, cosmo = ctx.mod('lyman_alpha_transmission'), cosmology()
    N = ctx.np
    x, d = ctx.array('x', shape, 1e-7, 1e-4), ctx.array('d', shape, -0.9, 0.9)
    n = shape[axis]
    tau = L.tau_nu_lyA_FGPA(6.0, x, d, cosmo=cosmo)      # see gunn_peterson
    m = 0.0
    for k in range(-(cells // 2), cells - cells // 2):
        m = m + N.exp(-N.roll(tau, -k, axis))
    want = -N.log(m / cells)
    x0, d0 = N.array(x), N.array(d)
    n0 = shape[2 - axis] if axis == 0 else shape[0]      # cells along the first axis once the line of sight is last
    for length in (cells, cells * 10.0 * u.Mpc, (cells * 1e4 + 3e3) * u.kpc):
        got = L.tau_nu_lyA_los(6.0, x, d, los_len=length, box_len=n0 * 10.0 * u.Mpc, los_axis=axis, cosmo=cosmo)
        ctx.check(got.shape == shape, 'shape')
        ctx.close(N.exp(-got), m / cells, 'mean transmission', tol=1e-5)
        ctx.close(got, want, 'effective optical depth', tol=1e-3)
    ctx.close(x, x0, 'fraction not modified', tol=0)
    ctx.close(d, d0, 'contrast not modified', tol=0)


@case(quick=[dict(axis=2), dict(axis=0)])
def effective_line(ctx, axis):
    """The same with the line optical depth (Smith et al. 2015) and a temperature field."""
    from astropy import units as u
    L, cosmo = ctx.mod('lyman_alpha_transmission'), cosmology()
    N = ctx.np
    shape = (1, 2, 3) if axis == 2 else (3, 2, 1)
    x = ctx.array('x', shape, 1e-9, 1e-7)
    T = (1 + np.arange(6).reshape(shape)) * 3e3
    nu = 2.4601e15
    tau = L.tau_nu_lyA(6.0, x, T * u.K, 0.1 * u.Mpc, nu=nu, cosmo=cosmo)
    tau = getattr(tau, 'value', tau)
    m = (N.exp(-tau) + N.exp(-N.roll(tau, 1, axis))) / 2
    got = L.tau_nu_lyA_los(6.0, x, 0 * x, los_len=2, box_len=30 * u.Mpc, los_axis=axis, method='Smith2015', Tk=T * u.K, dr=0.1 * u.Mpc, nu=nu, cosmo=cosmo)
    ctx.check(got.shape == shape, 'shape')
    ctx.close(N.exp(-got), m, 'mean transmission', tol=1e-5)


@case(quick=[dict(), dict(at=(0.5, 2.46005)), dict(at=(1.7, 2.4602))])
def line(ctx, at=None):
    """Cross section and optical depth: Voigt profile of the thermal Doppler
    width; the depth is proportional to neutral fraction and path length."""
    from astropy import constants as c, units as u
    L, cosmo = ctx.mod('lyman_alpha_transmission'), cosmology()
    N = ctx.np
    if ctx.sym:
        ctx.E.squares = True
    q, nu = at or (ctx.real('q', 0.1, 3), ctx.real('nu', 2.455, 2.465))
    T = 1e4 * q * q
    vth = 2.46e15 * np.sqrt(2 * c.k_B.value * 1e4 / c.m_p.value) / 2.99792458e8
    phi = L.approximation_voigt_faddeeva((nu * 1e15 - 2.46e15) / (vth * q), 4.7e-4 / q)
    for a, t in ((nu * 1e15, T), (nu * 1e15 * u.Hz, T * u.K), (nu * 1e6 * u.GHz, T / 1e3 * u.kK)):
        s = L.lyA_scattering_cross_section(a, t)
        ctx.close(s.to('cm2').value * 1e14 * q, 5.9 * phi, 'cross section', tol=1e-4)
    x, r = ctx.real('x', 0, 1), ctx.real('r', 0.01, 10)
    one = L.tau_nu_lyA(6.0, 1.0, T, 1.0 * u.Mpc, nu=nu * 1e15, cosmo=cosmo)
    for a, t, l in ((nu * 1e15, T, r * u.Mpc), (nu * 1e15 * u.Hz, T * u.K, r * 1e3 * u.kpc), (nu * 1e15, T, r)):
        got = L.tau_nu_lyA(6.0, x, t, l, nu=a, cosmo=cosmo)
        ctx.close(getattr(got, 'value', got) * q, x * r * getattr(one, 'value', one) * q, 'proportional to the column', tol=1e-3)
        s = L.lyA_scattering_cross_section(a, t).to('cm2').value
        n = float((0.76 * cosmo.Ob0 * cosmo.critical_density0).to('kg/cm^3').value) / c.m_p.value
        ctx.close(getattr(got, 'value', got) * q / 1e5, x * r * n * MPC * s * q / 1e5, 'column times cross section', tol=1e-2)
