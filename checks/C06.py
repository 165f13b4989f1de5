"""Redshift-space distortions by moving sub-particles along the line of sight."""
import numpy as np
from symex.harness import case

STUBS = ['cbin/velocity files are not read (arrays are passed)']
OUTSIDE = 'grids larger than listed; unequal transverse dimensions (documented requirement); |v| > 0.2 c'


def los(a, axis):
    return a.sum(axis=axis)


def vel(ctx, shape, comp, free, rest=0.0, vmax=5e4):
    """Velocity field: component comp symbolic on the flat cells `free`."""
    n = int(np.prod(shape))
    v = ctx.array('v', (3,) + tuple(shape), -vmax, vmax, free=[comp * n + i for i in free], rest=rest)
    return v


def line(shape, axis, at=(0, 0)):
    """Flat indices of one line of sight."""
    idx = np.arange(int(np.prod(shape))).reshape(shape)
    sl = list(at)
    sl.insert(axis, slice(None))
    return [int(i) for i in idx[tuple(sl)]]


@case(quick=[dict(shape=(2, 2, 2), axis=a, comp=c, npart=2) for a, c in ((0, 0), (1, 1), (2, 0))] + [dict(shape=(3, 1, 1), axis=0, comp=2, npart=1)],
      thorough=[dict(shape=(3, 2, 2), axis=0, comp=0, npart=2), dict(shape=(1, 4, 1), axis=1, comp=1, npart=1), dict(shape=(1, 1, 3), axis=2, comp=2, npart=3)], weight=5)
def conservation(ctx, shape, axis, comp, npart):
    """Total signal of every line of sight, one of them with an arbitrary
    velocity in every cell (beyond a box length)."""
    ctx.t2c.set_sim_constants(37)
    dT = ctx.array('dT', shape, -50, 50)
    v = vel(ctx, shape, comp, line(shape, axis), rest=1200.0, vmax=4e4)
    d0 = dT.copy()
    out = ctx.t2c.get_distorted_dt(dT, v, 8.0, los_axis=axis, velocity_axis=comp, num_particles=npart)
    ctx.check(out.shape == tuple(shape), 'shape')
    ctx.close(los(out, axis), los(dT, axis), 'signal per line of sight conserved', tol=1e-5)
    ctx.close(dT, d0, 'input not modified')


@case(quick=[dict(shape=(2, 2, 3), axis=a, npart=n) for a, n in ((2, 3),)] + [dict(shape=(3, 2, 2), axis=0, npart=1), dict(shape=(2, 4, 2), axis=1, npart=2)],
      thorough=[dict(shape=(3, 3, 3), axis=a, npart=10) for a in (0, 1, 2)])
def zero_velocity(ctx, shape, axis, npart):
    dT = ctx.array('dT', shape, -50, 50)
    other = ctx.array('v', (3,) + shape, -2000, 2000)
    v = other * ctx.const(np.arange(3) != axis).reshape(3, 1, 1, 1)
    out = ctx.t2c.get_distorted_dt(dT, v, 8.0, los_axis=axis, velocity_axis=axis, num_particles=npart)
    ctx.close(out, dT, 'unchanged without line-of-sight velocity', tol=1e-6)
    i = ctx.array('i', shape, -9, 9, kind='int')
    ctx.close(ctx.t2c.get_distorted_dt(i, v, 8.0, los_axis=axis, velocity_axis=axis, num_particles=npart), i * 1.0, 'integer signal unchanged', tol=1e-6)


@case(quick=[dict(shape=(3, 2, 2), axis=0, npart=2), dict(shape=(2, 3, 2), axis=1, npart=2), dict(shape=(2, 2, 3), axis=2, npart=2)], thorough=[dict(shape=(2, 2, 4), axis=2, npart=3)], weight=3)
def independent_lines(ctx, shape, axis, npart):
    """Signal and velocity of one line of sight never reach another."""
    ctx.t2c.set_sim_constants(244)
    r = ctx.det(5, *((3,) + shape)) * 4000 - 2000
    dT = ctx.array('dT', shape, -50, 50)
    dx = ctx.array('x', shape, -50, 50)
    m = np.zeros(shape, bool)
    m.reshape(-1)[line(shape, axis, (1, 0))] = True
    v2 = r.copy()
    v2[:, m] = -777.0
    kw = dict(los_axis=axis, velocity_axis=0, num_particles=npart)
    a = ctx.t2c.get_distorted_dt(dT, ctx.const(r), 8.0, **kw)
    b = ctx.t2c.get_distorted_dt(ctx.np.where(ctx.const(m), dx, dT), ctx.const(v2), 8.0, **kw)
    keep = ctx.const((~m).astype(float))
    ctx.close(a * keep, b * keep, 'other lines of sight unaffected')


@case(quick=[dict(n=4, cells=c, axis=a, npart=8) for c, a in ((1, 0), (-1, 1), (2, 2), (5, 0), (-6, 2))], thorough=[dict(n=5, cells=c, axis=1, npart=20) for c in (-7, -2, 3, 11)])
def uniform_velocity(ctx, n, cells, axis, npart):
    """A uniform velocity moves the signal periodically, receding material to
    larger distance (exact up to the one sub-particle on the box edge)."""
    ctx.t2c.set_sim_constants(37)
    const, conv = ctx.mod('const'), ctx.mod('conv')
    shape = [1, 1, 1]
    shape[axis] = n
    z = 7.5
    want = cells * conv.LB                # width is one cell: cell size = LB

    def dr(v):
        zo = (1 + z) / (1 - v / 3e5) - 1
        return (1 + zo) * v / (100 * const.h * np.sqrt(const.Omega0 * (1 + zo) ** 3 + 1 - const.Omega0))
    from scipy.optimize import brentq
    v = brentq(lambda v: dr(v) - want, -1.5e5, 1.5e5, xtol=1e-10) * (1 + 1e-12)
    dT = ctx.array('dT', shape, 0, 1)
    out = ctx.t2c.get_distorted_dt(dT, ctx.const(np.full([3] + shape, v)), z, los_axis=axis, velocity_axis=axis, num_particles=npart)
    ref = ctx.np.roll(dT, cells, axis=axis)
    ctx.le(out - ref, 1.0 / npart + 1e-6, 'shifted by whole cells (upper)')
    ctx.le(ref - out, 1.0 / npart + 1e-6, 'shifted by whole cells (lower)')
    ctx.close(out.sum(), dT.sum(), 'conserved', tol=1e-6)


@case(quick=[dict(shape=(3, 2, 2), npart=2)], thorough=[dict(shape=(4, 2, 2), npart=3)])
def axes_equivalent(ctx, shape, npart):
    """Relabelling the axes relabels the result."""
    ctx.t2c.set_sim_constants(244)
    dT = ctx.array('dT', shape, -5, 5)
    v = ctx.det(11, *((3,) + shape)) * 3000 - 1500
    f = ctx.t2c.get_distorted_dt
    a = f(dT, ctx.const(v), 8.0, los_axis=0, velocity_axis=0, num_particles=npart)
    for ax, perm in ((1, (2, 0, 1)), (2, (1, 2, 0))):
        b = f(dT.transpose(perm), ctx.const(v[[p for p in (0, 1, 2)]].transpose((0,) + tuple(p + 1 for p in perm))), 8.0, los_axis=ax, velocity_axis=0, num_particles=npart)
        ctx.close(b, a.transpose(perm), 'line of sight along axis %d' % ax)


@case(quick=[dict(n=3, npart=2)], thorough=[dict(n=4, npart=2)], weight=3)
def non_periodic(ctx, n, npart):
    """Without wrapping, signal can only leave through the ends, and the
    redshift may vary along the line of sight."""
    ctx.t2c.set_sim_constants(37)
    dT = ctx.array('dT', (1, 1, n), 0, 5)
    v = vel(ctx, (1, 1, n), 0, [0, n - 1], rest=500.0, vmax=1e4)
    z = ctx.const(np.linspace(8.0, 8.1, n))
    out = ctx.t2c.get_distorted_dt(dT, v, z, los_axis=2, velocity_axis=0, num_particles=npart, periodic=False)
    ctx.le(out.sum(), dT.sum(), 'never more than the original signal', tol=1e-6)
    ctx.ge(out, ctx.np.zeros((1, 1, n)), 'non-negative')
    zero = ctx.t2c.get_distorted_dt(dT, v * 0.0, z, los_axis=2, velocity_axis=0, num_particles=npart, periodic=False)
    ctx.close(zero, dT, 'unchanged without velocity')


def displacement(ctx, z, v):
    """Comoving displacement of material with line-of-sight velocity v (km/s)."""
    const = ctx.mod('const')
    zo = (1 + z) / (1 - v / 3e5) - 1
    return (1 + zo) * v / (100 * const.h * np.sqrt(const.Omega0 * (1 + zo) ** 3 + 1 - const.Omega0))


@case(quick=[dict(shape=(4, 2, 2), axis=0, comp=1, npart=3, vmax=2500, periodic=True), dict(shape=(2, 2, 5), axis=2, comp=0, npart=2, vmax=60000, periodic=False),
             dict(shape=(2, 3, 2), axis=1, comp=2, npart=4, vmax=60000, periodic=True), dict(shape=(2, 2, 5), axis=2, comp=2, npart=5, vmax=900, periodic=False)],
      thorough=[dict(shape=(2, 2, 6), axis=2, comp=c, npart=10, vmax=v, periodic=p) for c in (0, 2) for v in (300, 9000) for p in (True, False)])
def particles(ctx, shape, axis, comp, npart, vmax, periodic):
    """Every cell is split into equal sub-particles, each of which moves by the
    displacement interpolated to its position and is counted in the cell it
    reaches (wrapped, or lost beyond the ends), any signal."""
    ctx.t2c.set_sim_constants(244)
    conv = ctx.mod('conv')
    dT = ctx.array('dT', shape, -50, 50)
    v = (ctx.det(21 + axis, *((3,) + shape)) * 2 - 1) * vmax
    n = shape[axis]
    L = n * conv.LB / shape[(axis + 1) % 3]
    z = 8.0 if periodic else np.linspace(8.0, 8.2, n)
    zz = z if periodic else z.reshape([-1 if i == axis else 1 for i in range(3)])
    dr = np.asarray(displacement(ctx, zz, v[comp]), float)
    if not periodic and axis != 2:
        return
    out = ctx.t2c.get_distorted_dt(dT, ctx.const(v), z, los_axis=axis, velocity_axis=comp, num_particles=npart, periodic=periodic)
    m = n * npart
    for a in range(shape[(axis + 1) % 3]):
        for b in range(shape[(axis + 1) % 3]):
            sl = [a, b]
            sl.insert(axis, slice(None))
            sl = tuple(sl)
            f = np.interp(np.linspace(0, n - 1, m), np.arange(n), dr[sl])
            x = np.linspace(0, L, m) + f
            if periodic:
                x = np.mod(x, L)
            W = np.zeros((n, n))
            edge = False
            for i in range(m):
                c = int(np.floor(x[i] / (L / n)))
                edge = edge or abs(x[i] / (L / n) - round(x[i] / (L / n))) < 1e-4
                if 0 <= c < n:
                    W[c, i // npart] += 1.0 / npart
            ctx.check(not edge, 'harness: no particle on a cell edge')
            ref = ctx.np.array([sum(float(W[c, i]) * dT[sl][i] for i in range(n)) for c in range(n)])
            ctx.close(out[sl], ref, 'sub-particles counted where they arrive', tol=1e-5)
