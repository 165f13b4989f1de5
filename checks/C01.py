"""Brightness temperature from density, ionised fraction (and temperature)."""
import numpy as np
from symex.harness import case

STUBS = ['reading of cbin files is not exercised (arrays are passed directly)']
OUTSIDE = 'grids larger than the listed shapes; file-name redshift detection'


def ref_mean_dt(const, z):
    ez = np.sqrt(const.Omega0 * (1 + z) ** 3 + const.lam + (1 - const.Omega0 - const.lam) * (1 + z) ** 2)
    return const.meandt / const.h * (1 + z) ** 2 / ez


@case(quick=[dict(shape=(2, 2, 2), z=7.0), dict(shape=(2, 3, 1), z=0.0), dict(shape=(1, 2, 2), z=25.5)],
      thorough=[dict(shape=(3, 3, 3), z=z) for z in (0.5, 6.0, 9.6, 30.0)])
def saturated_law(ctx, shape, z):
    """dT = meandT(z) (1-x) rho/rho_mean for physical densities."""
    t, const = ctx.t2c, ctx.mod('const')
    x = ctx.array('x', shape, 0, 1)
    mean = const.rho_crit_0 * const.OmegaB
    d = ctx.array('delta', shape, 0, 20)
    rho = d * mean
    dt = t.calc_dt(x, rho, z)
    want = float(ref_mean_dt(const, z)) * (1 - x) * d
    ctx.close(dt, want, 'dT equals mean dT times neutral fraction times density contrast', tol=1e-6)


@case(quick=[dict(z=7.0, n=3)], thorough=[dict(z=z, n=6) for z in (1.0, 12.0)])
def saturated_overdensity(ctx, z, n):
    """Fields with a negative cell are overdensities (already normalised)."""
    t, const = ctx.t2c, ctx.mod('const')
    x = ctx.array('x', (n, 1, 1), 0, 1)
    d = ctx.array('d', (n, 1, 1), -5, 5)
    neg = (d < 0).any()
    ctx.assume(neg)
    dt = t.calc_dt(x, d, z)
    want = float(ref_mean_dt(const, z)) * (1 - x) * d
    ctx.close(dt, want, 'overdensity input is used as given', tol=1e-6)


@case(quick=[dict(shape=(2, 2, 2), z=8.0)], thorough=[dict(shape=(3, 2, 2), z=z) for z in (6.5, 15.0)])
def ionised_zero_and_inputs(ctx, shape, z):
    """Fully ionised cells carry no signal; inputs are not modified."""
    t = ctx.t2c
    ion = ctx.array('ion', shape, kind='bool')
    x = ctx.array('x', shape, 0, 1)
    x = ctx.np.where(ion, 1.0, x)
    rho = ctx.array('rho', shape, 0, 4)
    x0, r0 = x.copy(), rho.copy()
    dt = t.calc_dt(x, rho, z)
    ctx.close(ctx.np.where(ion, dt, 0.0), ctx.np.zeros(shape), 'ionised cells have zero signal')
    ctx.ge(dt, ctx.np.zeros(shape), 'saturated signal is non-negative for physical densities')
    ctx.close(x, x0, 'ionised fraction not modified')
    ctx.close(rho, r0, 'density not modified')


@case(quick=[dict(kx='f4', kr='i4'), dict(kx='i', kr='f')])
def integer_inputs(ctx, kx, kr):
    """The result does not depend on the storage type of the inputs."""
    t = ctx.t2c
    x = ctx.array('x', (2, 1, 1), 0, 1, kind='int' if kx[0] == 'i' else 'real')
    r = ctx.array('r', (2, 1, 1), 0, 9, kind='int' if kr[0] == 'i' else 'real')
    a = t.calc_dt(x, r, 8.0)
    b = t.calc_dt(x * 1.0, r * 1.0, 8.0)
    ctx.close(a, b, 'same signal for integer and floating inputs', tol=1e-9)


def _kelvin(ctx, shape, lo=5.0, hi=5000.0):
    return ctx.array('T', shape, lo, hi)


@case(quick=[dict(shape=(2, 2, 1), z=9.0)], thorough=[dict(shape=(2, 2, 2), z=z) for z in (6.0, 20.0)])
def spin_temperature_uncorrected(ctx, shape, z):
    t, const = ctx.t2c, ctx.mod('const')
    x = ctx.array('x', shape, 0, 1)
    d = ctx.array('d', shape, 0, 5)
    T = _kelvin(ctx, shape)
    mean = const.rho_crit_0 * const.OmegaB
    dt = t.calc_dt_full(x, d * mean, T, z, correct=False)
    tc = const.Tcmb0 * (1 + z)
    c = float(ref_mean_dt(const, z))
    ctx.close(dt * T, (T - tc) * c * (1 - x) * d, 'dT_b = (1-Tcmb/Ts) x saturated signal', tol=1e-4)


@case(quick=[dict(n=2, z=9.0)], thorough=[dict(n=3, z=z) for z in (6.0, 20.0)])
def spin_temperature_corrected(ctx, n, z):
    """Partially ionised cells: the neutral gas temperature is used, floored at
    the adiabatic minimum, and the signal never exceeds the saturated one."""
    t, const = ctx.t2c, ctx.mod('const')
    x = ctx.array('x', (n, 1, 1), 0, 0.9)
    d = ctx.array('d', (n, 1, 1), 0, 5)
    T = _kelvin(ctx, (n, 1, 1), 5.0, 30000.0)
    mean = const.rho_crit_0 * const.OmegaB
    dt = t.calc_dt_full(x, d * mean, T, z, correct=True)
    tc = const.Tcmb0 * (1 + z)
    tmin = const.Tcmb0 * 201 * (1 + z) ** 2 / 201. ** 2
    c = float(ref_mean_dt(const, z))
    Tn = (T - 2e4 * x) / (1 - x)
    Tn = ctx.np.where(Tn < tmin, tmin, Tn)
    ctx.close(dt * Tn, (Tn - tc) * c * (1 - x) * d, 'corrected signal follows the neutral-gas temperature', tol=1e-3)
    ctx.le(dt, c * (1 - x) * d, 'signal bounded by the saturated limit', tol=1e-6)


@case(quick=[dict(shape=(2, 2, 3), zlow=7.0, axis=2), dict(shape=(3, 2, 2), zlow=7.0, axis=0), dict(shape=(2, 2, 2), zlow=7.0, axis=1)],
      thorough=[dict(shape=(2, 3, 2), zlow=7.0, axis=1), dict(shape=(2, 2, 4), zlow=11.0, axis=2)])
def lightcone_matches_coeval(ctx, shape, zlow, axis):
    """Every line-of-sight slice equals a coeval box at the slice's redshift."""
    t, cosmo, conv = ctx.t2c, ctx.mod('cosmo'), ctx.mod('conv')
    t.set_sim_constants(244)
    x = ctx.array('x', shape, 0, 1)
    d = ctx.array('d', shape, 0, 5)
    dt = t.calc_dt_lightcone(x, d, zlow, los_axis=axis)
    cell = conv.LB / shape[(axis + 1) % 3]
    z = cosmo.cdist_to_z(cosmo.z_to_cdist(zlow) + cell * np.arange(shape[axis]))
    z = np.asarray(ctx.concrete(z), float)
    # the slices are compared with coeval boxes that carry the same normalisation
    for i in range(shape[axis]):
        sl = [slice(None)] * 3
        sl[axis] = i
        sl = tuple(sl)
        ref = float(ref_mean_dt(ctx.mod('const'), z[i])) * (1 - x[sl]) * d[sl] / (ctx.mod('const').rho_crit_0 * ctx.mod('const').OmegaB)
        ctx.close(dt[sl] * 1e-30, ref * 1e-30, 'slice %d' % i, tol=1e-6)


@case(quick=[dict(shape=(2, 2, 3), zlow=9.0, axis=2), dict(shape=(3, 2, 2), zlow=6.5, axis=0), dict(shape=(2, 3, 2), zlow=15.0, axis=1)],
      thorough=[dict(shape=(2, 2, 4), zlow=z, axis=2) for z in (6.0, 20.0)])
def full_lightcone_matches_coeval(ctx, shape, zlow, axis):
    """Spin-temperature light cones: slice by slice the coeval computation at
    the redshift of that slice, cold and hot cells, with and without correction."""
    t, cosmo, conv, const = ctx.t2c, ctx.mod('cosmo'), ctx.mod('conv'), ctx.mod('const')
    t.set_sim_constants(244)
    x = ctx.array('x', shape, 0, 0.95)
    d = ctx.array('d', shape, 0, 5)
    T = _kelvin(ctx, shape, 1.0, 30000.0)
    mean = const.rho_crit_0 * const.OmegaB
    cell = conv.LB / shape[(axis + 1) % 3]
    z = np.asarray(ctx.concrete(cosmo.cdist_to_z(cosmo.z_to_cdist(zlow) + cell * np.arange(shape[axis]))), float)
    for correct in (True, False):
        dt = t.calc_dt_full_lightcone(x, T, d * mean, zlow, los_axis=axis, correct=correct)
        ctx.check(dt.shape == tuple(shape), 'shape')
        for i in range(shape[axis]):
            sl = [slice(None)] * 3
            sl[axis] = slice(i, i + 1)
            sl = tuple(sl)
            ref = t.calc_dt_full(x[sl], d[sl] * mean, T[sl], float(z[i]), correct=correct)
            ctx.close(dt[sl], ref, 'slice %d' % i, tol=1e-4)


@case(quick=[dict(z=9.0)], thorough=[dict(z=z) for z in (6.0, 25.0)])
def fully_ionised_full(ctx, z):
    """Fully ionised cells: no signal, no correction, neighbours unaffected; also
    for integer data, and the inputs stay as they were."""
    t, const = ctx.t2c, ctx.mod('const')
    mean = const.rho_crit_0 * const.OmegaB
    ion = ctx.array('ion', (3, 1, 1), kind='bool')
    x = ctx.np.where(ion, 1.0, ctx.array('x', (3, 1, 1), 0, 0.9))
    d = ctx.array('d', (3, 1, 1), 0, 5)
    T = _kelvin(ctx, (3, 1, 1), 1.0, 60000.0)
    x0, T0 = x.copy(), T.copy()
    rho = d * mean
    r0 = rho.copy()
    dt = t.calc_dt_full(x, rho, T, z)
    for i in range(3):
        one = t.calc_dt_full(x[i:i + 1], rho[i:i + 1], T[i:i + 1], z)
        ctx.close(dt[i:i + 1], one, 'cell by cell', tol=1e-6)
    ctx.close(ctx.np.where(ion, dt, 0.0), ctx.np.zeros((3, 1, 1)), 'ionised cells have zero signal')
    ctx.close(x, x0, 'ionised fraction not modified')
    ctx.close(T, T0, 'temperature not modified')
    ctx.close(rho / mean, r0 / mean, 'density not modified')
    Ti = ctx.array('Ti', (3, 1, 1), 3, 40000, kind='int')
    ctx.close(t.calc_dt_full(x, rho, Ti, z), t.calc_dt_full(x, rho, Ti * 1.0, z), 'integer temperatures', tol=1e-6)


@case(quick=[dict(om=0.3, ol=0.5, z=7.0), dict(om=0.4, ol=0.9, z=2.5)], thorough=[dict(om=0.2, ol=0.2, z=z) for z in (0.0, 12.0)])
def other_cosmologies(ctx, om, ol, z):
    """The constants in force when the signal is computed decide it, also when
    space is not flat."""
    t, const = ctx.t2c, ctx.mod('const')
    const.set_omega_matter(om)
    const.set_omega_lambda(ol)
    x = ctx.array('x', (2, 1, 1), 0, 1)
    d = ctx.array('delta', (2, 1, 1), 0, 20)
    T = _kelvin(ctx, (2, 1, 1))
    mean = const.rho_crit_0 * const.OmegaB
    ez = np.sqrt(om * (1 + z) ** 3 + ol + (1 - om - ol) * (1 + z) ** 2)
    c = float(const.meandt / const.h * (1 + z) ** 2 / ez)
    ctx.close(t.calc_dt(x, d * mean, z), c * (1 - x) * d, 'saturated signal', tol=1e-6)
    dt = t.calc_dt_full(x, d * mean, T, z, correct=False)
    ctx.close(dt * T, (T - const.Tcmb0 * (1 + z)) * c * (1 - x) * d, 'signal with a spin temperature', tol=1e-4)


@case(quick=[dict(n=1, z=9.0)], thorough=[dict(n=2, z=z) for z in (6.0, 20.0)])
def nearly_ionised_full(ctx, n, z):
    """The little neutral gas of a cell that is almost ionised counts as that of
    any other: cells with a neutral fraction from 1e-6 to 1e-2."""
    t, const = ctx.t2c, ctx.mod('const')
    frac = ctx.array('neutral', (n, 1, 1), 0.01, 1)
    d = ctx.array('d', (n, 1, 1), 0.1, 5)
    T = _kelvin(ctx, (n, 1, 1), 5.0, 40000.0)
    mean = const.rho_crit_0 * const.OmegaB
    tc = const.Tcmb0 * (1 + z)
    tmin = const.Tcmb0 * (1 + z) ** 2 / 201.
    c = float(ref_mean_dt(const, z))
    for scale in (1e-2, 1e-4):
        xn = frac * scale
        x = 1 - xn
        dt = t.calc_dt_full(x, d * mean, T, z, correct=True)
        # temperature of the neutral gas, times the neutral fraction
        Tn = T - 2e4 * x
        Tn = ctx.np.where(Tn < tmin * xn, tmin * xn, Tn)
        ctx.close(dt / scale * Tn * 1e-3, (Tn - tc * xn) * c * frac * d * 1e-3, 'neutral fraction of %g' % scale, tol=1e-4)
