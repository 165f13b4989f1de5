"""Magnitudes, luminosities, particle numbers and grid units."""
import numpy as np
from symex.harness import case

STUBS = ['astropy unit factors and cosmological distances are those of astropy (symex/units.py multiplies symbolic values by them); powers and logarithms satisfy their functional equations']
OUTSIDE = 'cosmologies other than those listed; redshifts other than those listed for distances'


def val(q, unit):
    return q.to(unit).value


@case(quick=[dict(z=8.0, cosmo=0), dict(z=0.5, cosmo=1)], thorough=[dict(z=20.0, cosmo=1), dict(z=6.0, cosmo=0)])
def magnitudes(ctx, z, cosmo):
    """Apparent and absolute magnitude are inverse, differ by the distance modulus less the band width term."""
    from astropy import units as u
    from astropy.cosmology import Planck18, WMAP9
    A = ctx.mod('astro_tools')
    c = None if cosmo == 0 else WMAP9
    cc = Planck18 if c is None else WMAP9
    M = ctx.real('M', -25, 30)
    dm = 5 * np.log10(cc.luminosity_distance(z).to('pc').value / 10) - 2.5 * np.log10(1 + z)
    for x in (M, M * u.mag):
        m = A.Muv_to_muv(x, z, cosmo=c)
        ctx.close(val(m, 'mag'), M + dm, 'apparent magnitude', tol=1e-6)
        ctx.close(val(A.muv_to_Muv(m, z, cosmo=c), 'mag'), M, 'round trip', tol=1e-9)
        ctx.close(val(A.muv_to_Muv(x, z, cosmo=c), 'mag'), M - dm, 'absolute magnitude', tol=1e-6)


@case(quick=[dict()])
def fluxes(ctx):
    """Five magnitudes are a factor of one hundred; zero points of the AB system and of 1500 A luminosities."""
    from astropy import units as u
    A = ctx.mod('astro_tools')
    m = ctx.real('m', -30, 30)
    d = ctx.real('d', -5, 5)
    for f, unit, zp, lo in ((A.mag_to_flux, 'erg/(s cm2 Hz)', 48.60, 0.0), (A.Muv_to_L1500, 'erg/(s Hz)', -34.1, 7.0)):
        for q in (1.0, u.mag):
            a, b = val(f(m * q), unit), val(f((m + d) * q), unit)
            ctx.close(ctx.np.log10(a), lo - 0.4 * (m + zp), 'zero point', tol=1e-6)
            ctx.close(ctx.np.log10(b) - ctx.np.log10(a), -0.4 * d, 'brighter is smaller', tol=1e-6)


@case(quick=[dict(z=8.0), dict(z=0.5)])
def field_of_view(ctx, z):
    from astropy import units as u
    from astropy.cosmology import Planck18
    A = ctx.mod('astro_tools')
    s = ctx.real('s', 0.01, 10)
    D = Planck18.comoving_distance(z).value
    for x in (s, s * u.deg ** 2, s * 3600 * u.arcmin ** 2, s * (np.pi / 180) ** 2 * u.rad ** 2):
        ctx.close(val(A.FoV_cMpc2(x, z), 'Mpc2') / D ** 2, s * (np.pi / 180) ** 2, 'area at the distance of the redshift', tol=1e-9)


@case(quick=[dict(cosmo='Planck18'), dict(cosmo='wmap7')], thorough=[dict(cosmo=c) for c in ('Planck13', 'PLANCK15', 'WMAP1', 'WMAP3', 'WMAP5', 'WMAP9')])
def particles(ctx, cosmo):
    """Particle mass and number: N^3 particles hold the mean matter of the box, and both directions are inverse."""
    from astropy import units as u, cosmology
    T = ctx.mod('nbody_tools')
    name = [n for n in dir(cosmology) if n.lower() == cosmo.lower()][0]
    c = getattr(cosmology, name)
    rho = (c.critical_density0 * c.Om0).to('Msun/Mpc3').value / 1e10
    L = ctx.real('L', 1, 100)
    N = ctx.real('N', 1, 100)
    m = val(T.particle_number_to_particle_mass(L, particle_each_direction=N, cosmo=cosmo), 'Msun') / 1e10
    ctx.close(m * N ** 3, rho * L ** 3, 'mean matter of the box', tol=1e-3)
    ctx.close(val(T.particle_number_to_particle_mass(L * 1e3 * u.kpc, N, cosmo=cosmo), 'Msun') / 1e10, m, 'units of the box length', tol=1e-3)
    mass = ctx.real('m', 1, 100)
    n = T.ParticleMass_to_ParticleNumber(L, mass * 1e10, cosmo=cosmo)
    ctx.close(n ** 3 * mass, rho * L ** 3, 'mean matter of the box', tol=1e-3)
    ctx.close(T.ParticleMass_to_ParticleNumber(L * u.Mpc, mass * 1e7 * u.Msun * 1000, cosmo=cosmo), n, 'units of the mass', tol=1e-6)
    h = T.halo_mass_to_particle_number(L, mass * 1e10 * 20, 20, cosmo=cosmo)
    ctx.close(h, n, 'resolving haloes with the given number of particles', tol=1e-6)
    total = T.particle_number_to_particle_mass(L, particle_total=N ** 3, cosmo=cosmo)
    ctx.close(val(total, 'Msun') / 1e10, m, 'total number of particles', tol=1e-3)


@case(quick=[dict()])
def grid_units(ctx):
    """Simulation grid units of mass are those of the box that was set, and setting another box resets them."""
    U, conv, const = ctx.mod('usefuls'), ctx.mod('conv'), ctx.mod('const')
    c = lambda v: float(ctx.concrete(v))
    m = ctx.real('m', 1, 1000)
    for box, nf in ((244.0, 8000), (425.0, 10976), (64.0, 3456), (37.0, 2048), (500.0, 13824), (244.0, 8000)):
        conv.set_sim_constants(box)
        one = c(const.rho_matter) * (box / c(const.h) * c(const.Mpc) / nf) ** 3 * c(const.solar_masses_per_gram)
        ctx.close(U.Mgrid_2_Msolar(m) / one, m, 'grid mass in solar masses', tol=1e-6)
        ctx.close(U.Msolar_2_Mgrid(m * one), m, 'solar masses in grid masses', tol=1e-6)
        ctx.close(ctx.np.log10(m) + np.log10(one), conv.gridmass_to_msol(m), 'logarithm of the mass in solar masses', tol=1e-6)
        ctx.close(conv.gridpos_to_mpc(m) * c(const.h) * nf / box, m, 'position in Mpc', tol=1e-6)
        ctx.close(conv.LB * c(const.h) / box, 1.0, 'length of the box in Mpc', tol=1e-9)
    # velocities: cells per time unit at any redshift
    v, z = ctx.real('v', -5, 5), ctx.real('z', 0, 30)
    cell = 244.0 / c(const.h) / 8000                      # Mpc
    unit = cell * 1.5 * np.sqrt(c(const.Omega0)) * c(const.H0)
    ctx.close(conv.gridvel_to_kms(v, z) / unit, v * (1 + z), 'velocity in km/s', tol=1e-4)


@case(quick=[dict()])
def box_at_the_start(ctx):
    """Before any box is set, the units are those of the box that is stated."""
    conv = ctx.mod('conv')
    m, z = ctx.real('m', 1, 1000), ctx.real('z', 0, 30)
    first = [conv.gridpos_to_mpc(m), conv.gridvel_to_kms(m, z), conv.gridmass_to_msol(m), conv.LB]
    conv.set_sim_constants(float(ctx.concrete(conv.boxsize)))
    for a, b in zip(first, [conv.gridpos_to_mpc(m), conv.gridvel_to_kms(m, z), conv.gridmass_to_msol(m), conv.LB]):
        ctx.close(a, b, 'same units as after setting that box', tol=1e-6)


@case(quick=[dict(h=0.5), dict(h=0.9)])
def every_box(ctx, h):
    """Every box that is known, with another Hubble constant."""
    conv, const = ctx.mod('conv'), ctx.mod('const')
    c = lambda v: float(ctx.concrete(v))
    const.set_hubble_h(h)
    m = ctx.real('m', 1, 1000)
    for box, nf in ((425, 10976), (114, 6144), (64, 3456), (37, 2048), (500, 13824), (244, 8000), (47, 3456), (200, 3456)):
        ctx.t2c.set_sim_constants(box)
        ctx.close(conv.LB, box / h, 'length of the box', tol=1e-6)
        ctx.close(conv.gridpos_to_mpc(m) * h * nf / box, m, 'position in Mpc', tol=1e-6)
        one = 2.775e11 * h ** 2 * c(const.Omega0) * (box / h / nf) ** 3
        ctx.close(conv.gridmass_to_msol(m), ctx.np.log10(m) + np.log10(one), 'mass of a grid particle', tol=1e-2)
    for bad in (100., 243.):
        try:
            ctx.t2c.set_sim_constants(bad)
        except Exception:
            continue
        ctx.check(False, 'an unknown box is refused')
