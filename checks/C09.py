"""Thomson-scattering optical depth."""
import numpy as np
from symex.harness import case

STUBS = ['tqdm progress bars are no-ops']
OUTSIDE = 'more redshifts than listed; dictionaries of snapshots (the light-cone property covers their interpolation)'


def const_of(ctx):
    c = ctx.mod('const')
    return 2 * 3e10 * 6.65e-25 * c.OmegaB / c.Omega0 * (3 * (c.h * 1e7 / 3.086e24) ** 2 / (8 * np.pi * 6.6732e-8)) * 1.074 * (1 - c.abu_he_mass) / 1.672661e-24 / (3 * c.h * 1e7 / 3.086e24), c.Omega0, c.lam


def reference(ctx, x, z, k):
    """Depth at z[k] for ionised fractions x at increasing redshifts z, in units
    of the coefficient."""
    co, om, lam = const_of(ctx)
    E = lambda v: ctx.np.sqrt(om * (1 + v) ** 3 + lam)
    t = E(z[0]) - 1
    for i in range(k):
        f = [x[j] * (1 + z[j]) ** 2 / E(z[j]) for j in (i, i + 1)]
        t = t + 1.5 * om * (f[0] + f[1]) * (z[i + 1] - z[i]) / 2
    return t


@case(quick=[dict(n=4, npts=3, order=(0, 1, 2, 3)), dict(n=4, npts=2, order=(2, 0, 3, 1))], thorough=[dict(n=6, npts=5, order=(5, 3, 1, 0, 4, 2)), dict(n=3, npts=50, order=(0, 1, 2))])
def line(ctx, n, npts, order):
    """All ionised fractions symbolic, concrete redshifts, any order."""
    z = np.linspace(6.0, 9.0, n) ** 1.1
    x = ctx.array('x', n, 0, 1)
    o = list(order)
    xs, zs = x[ctx.const(np.array(o))], ctx.const(z[o])
    tau, tz = ctx.t2c.tau(xs, zs, num_points=npts)
    co = const_of(ctx)[0]
    ctx.check(tau.shape == (n + npts,) and tz.shape == (n + npts,), 'lengths')
    ctx.close(tz, np.concatenate([np.arange(1, npts + 1) / npts * z[0], z]), 'redshifts, ascending')
    for i in range(npts):
        zz = (i + 1) / npts * z[0]
        ctx.close(tau[i] / co, reference(ctx, [1.0], [zz], 0), 'fully ionised below the data')
    for k in range(n):
        ctx.close(tau[npts + k] / co, reference(ctx, x, z, k), 'depth up to redshift %d' % k, tol=1e-6)
    ctx.ge(tau[1:], tau[:-1], 'never decreases')
    ctx.close(xs, x[ctx.const(np.array(o))], 'input unchanged')


@case(quick=[dict(n=3)], thorough=[dict(n=4)])
def symbolic_redshifts(ctx, n):
    """Redshifts symbolic in any order."""
    z = ctx.array('z', n, 6.0, 12.0)
    x = ctx.array('x', n, 0, 1, free=(0, 1), rest=0.4)
    for i in range(n):
        for j in range(i):
            ctx.assume(ctx.np.abs(z[i] - z[j]) > 0.05)
    o = ctx.np.argsort(z)
    x2, z2 = x[o], z[o]
    tau, tz = ctx.t2c.tau(x, z, num_points=2)
    co = const_of(ctx)[0]
    ctx.close(tz[2:], z2, 'sorted redshifts')
    for k in range(n):
        ctx.close(tau[2 + k] / co, reference(ctx, x2, z2, k), 'depth up to redshift %d' % k, tol=1e-5)


@case(quick=[dict(shape=(2, 2, 3), npts=4)], thorough=[dict(shape=(3, 2, 5), npts=6)])
def maps(ctx, shape, npts):
    """Every line of sight of a map is the one-dimensional result; linear."""
    x = ctx.array('x', shape, 0, 1)
    z = np.linspace(6.5, 8.0, shape[2])
    m, tz = ctx.t2c.tau_map(x, ctx.const(z), num_points=npts)
    ctx.check(m.shape == shape[:2] + (shape[2] + npts,), 'shape')
    co = const_of(ctx)[0]
    for i in range(shape[0]):
        for j in range(shape[1]):
            t, z1 = ctx.t2c.tau(x[i, j], ctx.const(z), num_points=npts)
            ctx.close(m[i, j] / co, t / co, 'line of sight', tol=1e-6)
            for k in range(shape[2]):
                ctx.close(m[i, j, npts + k] / co, reference(ctx, x[i, j], z, k), 'depth', tol=1e-6)
    ctx.close(tz, z1, 'redshifts')


@case(quick=[{}])
def cosmology(ctx):
    """The depth uses the current parameters."""
    c = ctx.mod('const')
    h, ob = ctx.real('h', 0.5, 0.9), ctx.real('ob', 0.03, 0.06)
    x = ctx.array('x', 2, 0, 1)
    z = ctx.const(np.array([6.0, 7.0]))
    a, _ = ctx.t2c.tau(x, z, num_points=2)
    h0, ob0 = c.h, c.OmegaB
    c.set_hubble_h(h)
    c.set_omega_baryon(ob)
    b, _ = ctx.t2c.tau(x, z, num_points=2)
    ctx.close(b * (h0 * ob0), a * (h * ob), 'scales with baryon density times h', tol=1e-7)
    c.set_hubble_h(h0)
    c.set_omega_baryon(ob0)


@case(quick=[{}])
def mismatched(ctx):
    x = ctx.array('x', 3, 0, 1)
    ctx.check(ctx.raises(lambda: ctx.t2c.tau(x, ctx.const(np.array([6.0, 7.0])))), 'different lengths are rejected')
