"""Coeval cubes at a redshift between the snapshots."""
import numpy as np
from symex.harness import case

STUBS = ['binary files: typed slots at byte offsets (symex/fsmodel.py); the redshift in a file name is a unique literal mapped back to the symbol']
OUTSIDE = 'meshes and numbers of snapshots other than listed; redshifts outside the range of the snapshots'
TOL = 1e-4


def snapshots(ctx, n, z=None):
    """Redshifts of n snapshots in any order, and a redshift within their range."""
    zs = [ctx.real('z%d' % i, 5, 20) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(ctx.np.logical_or(zs[i] > zs[j] + 0.05, zs[i] < zs[j] - 0.05))
    if z == 'exact':
        return zs, zs[1]
    t = ctx.real('t', 5, 20)
    for v in zs:
        ctx.assume(ctx.np.logical_or(t > v + 0.01, t < v - 0.01))
    above, below = False, False
    for v in zs:
        above, below = ctx.np.logical_or(above, v > t), ctx.np.logical_or(below, v < t)
    ctx.assume(above)
    ctx.assume(below)
    return zs, t


def bracket(zs, t):
    low = [i for i in range(len(zs)) if bool(zs[i] < t)]
    high = [i for i in range(len(zs)) if bool(zs[i] > t)]
    l, h = low[0], high[0]
    for i in low:
        if bool(zs[i] > zs[l]):
            l = i
    for i in high:
        if bool(zs[i] < zs[h]):
            h = i
    return l, h


def between(zs, data, t, exact):
    if exact:
        return data[1]
    l, h = bracket(zs, t)
    w = (zs[h] - t) / (zs[h] - zs[l])
    return data[l] * w + data[h] * (1 - w)


SIZE = (1, 2, 1)


def write_xfrac(ctx, d, zs):
    x = [ctx.array('x%d' % i, SIZE, 0, 1) for i in range(len(zs))]
    for z, v in zip(zs, x):
        ctx.mod('xfrac_file').XfracFile().write_to_file(d + '/xfrac3d_%s.bin' % ctx.text(z), v)
    return x


def write_dens(ctx, d, zs, name='r', hi=10):
    r = [ctx.array('%s%d' % (name, i), SIZE, 1, hi) for i in range(len(zs))]
    for z, v in zip(zs, r):
        ctx.mod('density_file').DensityFile().write_to_file(d + '/%sn_all.dat' % ctx.text(z), raw_density=v)
    return r


def unit(ctx):
    const, conv = ctx.mod('const'), ctx.mod('conv')
    conv.nbox_fine = 8
    return float(ctx.concrete(const.rho_crit_0)) * (SIZE[0] / 8.0) ** 3 * float(ctx.concrete(const.OmegaB))


@case(quick=[dict(n=3, api=a, z=z) for a in ('u', 'c') for z in ('exact', 'between')], thorough=[dict(n=4, api='u', z='between')])
def xfrac(ctx, n, api, z):
    d = ctx.tmp()
    zs, t = snapshots(ctx, n, z)
    x = write_xfrac(ctx, d, zs)
    f = ctx.mod('usefuls').coeval_xfrac if api == 'u' else ctx.mod('read_files').coeval_xfrac_c2ray
    ctx.close(f(d, t), between(zs, x, t, z == 'exact'), 'linear in redshift between the snapshots around it', tol=TOL)


@case(quick=[dict(n=3, api=a, z=z) for a in ('u', 'c') for z in ('exact', 'between')], thorough=[dict(n=4, api='u', z='between')])
def density(ctx, n, api, z):
    d = ctx.tmp()
    fac = unit(ctx)
    zs, t = snapshots(ctx, n, z)
    r = write_dens(ctx, d, zs)
    if api == 'u':
        want = between(zs, r, t, z == 'exact')
        ctx.close(ctx.mod('usefuls').coeval_dens(d, t) / fac, want, 'linear in redshift between the snapshots around it', tol=TOL)
        ctx.close((ctx.mod('usefuls').coeval_overdens(d, t) + 1) * want.sum() / want.size, want, 'contrast with the mean', tol=TOL)
    else:
        want = r[1] if z == 'exact' else r[bracket(zs, t)[1]]
        got = ctx.mod('read_files').coeval_dens_c2ray(d, t) / fac
        ctx.close(got, want, 'comoving density of the preceding snapshot', tol=TOL)


@case(quick=[dict(n=2, z=z) for z in ('exact', 'between')], thorough=[dict(n=3, z='between')])
def velocity(ctx, n, z):
    """Momenta are divided by the density of the same snapshot."""
    d, e = ctx.tmp(), ctx.tmp()
    unit(ctx)
    zs, t = snapshots(ctx, n, z)
    rho = [1 + ctx.det(i + 1, *SIZE) for i in range(n)]
    mom = [ctx.array('m%d' % i, (3,) + SIZE, -3, 3) for i in range(n)]
    for i in range(n):
        ctx.mod('vel_file').VelocityFile().write_to_file(d + '/%sv_all.dat' % ctx.text(zs[i]), mom[i])
    for i in reversed(range(n)):
        ctx.mod('density_file').DensityFile().write_to_file(e + '/%sn_all.dat' % ctx.text(zs[i]), raw_density=ctx.const(rho[i]))
    c = lambda v: float(ctx.concrete(v))
    const = ctx.mod('const')
    kms = (244.0 / c(const.h)) / 8 * 1.5 * np.sqrt(c(const.Omega0)) * c(const.H0)
    v = [mom[i] * ctx.const(8.0 / rho[i]) * (1 + zs[i]) for i in range(n)]
    s = c(ctx.mod('conv').velconvert(0.0))
    ctx.close(ctx.mod('usefuls').coeval_vel(e, d, t) / s, between(zs, v, t, z == 'exact'), 'velocity between the snapshots around it', tol=1e-2)


@case(quick=[dict(n=2, api=a, z=z) for a in ('u', 'c') for z in ('exact', 'between')], thorough=[dict(n=3, api='u', z='between')])
def signal(ctx, n, api, z):
    d = ctx.tmp()
    unit(ctx)
    zs, t = snapshots(ctx, n, z)
    x = write_xfrac(ctx, d, zs)
    r = write_dens(ctx, d, zs)
    f = ctx.mod('usefuls').coeval_21cm if api == 'u' else ctx.mod('read_files').coeval_21cm_c2ray
    xi = between(zs, x, t, z == 'exact')
    rho = between(zs, r, t, z == 'exact') if api == 'u' or z == 'exact' else r[bracket(zs, t)[1]]
    T0 = ctx.mod('temperature').mean_dt(t)
    want = T0 * (1 - xi) * rho * (SIZE[0] / 8.0) ** 3
    ctx.close(f(d, d, t), want, 'signal of the interpolated fields', tol=1e-2)
    m = f(d, d, t, mean_subtract=True)
    got = f(d, d, t)
    if api == 'u':
        ctx.close(m, got - got.sum() / got.size, 'mean is subtracted', tol=TOL)
    else:
        for k in range(SIZE[2]):
            ctx.close(m[:, :, k], got[:, :, k] - got[:, :, k].sum() / got[:, :, k].size, 'mean of each slice along the third axis is subtracted', tol=TOL)
