"""Light cones from coeval snapshots."""
import numpy as np
from symex.harness import case

STUBS = ['time.sleep and progress bars are no-ops', 'snapshots are passed as arrays (dictionary or reading function); files are covered by the I/O property']
OUTSIDE = 'cubes larger than those listed; more than three snapshots; non-cubic snapshots'


def expect(ctx, snaps, zs, z, pos, axis, N, how='linear'):
    """Reference slice: snaps sorted by zs (strictly increasing)."""
    for k in range(len(zs) - 1):
        last = k == len(zs) - 2
        if last or z < zs[k + 1]:
            lo, hi, zl, zh = snaps[k], snaps[k + 1], zs[k], zs[k + 1]
            break
    sl = [slice(None)] * 3
    sl[axis] = pos % N
    lo, hi = lo[(Ellipsis,) + tuple(sl)], hi[(Ellipsis,) + tuple(sl)]
    if how == 'linear':
        w = (z - zl) / (zh - zl)
        return lo * (1 - w) + hi * w
    return lo if z < 0.5 * (zl + zh) else hi


def grid(ctx, zo, lo, hi, N, box):
    """The slices are those of the cell of this box (see redshift_grid), from the lowest to the highest redshift."""
    want = np.asarray(ctx.concrete(ctx.mod('lightcone').redshifts_at_equal_comoving_distance(lo, hi, box_grid_n=N, box_length_mpc=box)), float)
    want = want[(want >= 7.0) & (want <= 8.0)]       # the snapshots end there
    ctx.check(len(zo) == len(want) and bool(np.allclose(zo, want, rtol=1e-9)), 'one cell of the box per slice')


def run(ctx, order, zm, z, N, axis, box, how, z_low, z_high, prefix=(), as_dict=False, depth_mhz=None):
    zs = [z[0], zm, z[-1]]
    cubes = [ctx.array('s%d' % i, tuple(prefix) + (N, N, N), -3, 3) for i in range(3)]
    kw = dict(z_low=z_low, z_high=z_high, los_axis=axis, interpolation=how, box_length_mpc=box, depth_mhz=depth_mhz)
    if as_dict:
        lc, zo = ctx.t2c.make_lightcone({zs[i]: cubes[i] for i in order}, **kw)
    else:
        names = [cubes[i] for i in order]
        fz = [zs[i] for i in order]
        fz = ctx.np.array(fz)
        lc, zo = ctx.t2c.make_lightcone(names, file_redshifts=fz, reading_function=lambda x: x, **kw)
    return lc, zo, cubes, zs


@case(quick=[dict(order=(0, 1, 2), axis=0, N=2, box=200., lo=7.0, hi=8.0), dict(order=(2, 0, 1), axis=1, N=2, box=300., lo=7.0, hi=8.0),
             dict(order=(1, 2, 0), axis=2, N=2, box=400., lo=6.8, hi=8.2)],
      thorough=[dict(order=o, axis=a, N=3, box=b, lo=7.05, hi=7.9) for o in ((0, 1, 2), (2, 1, 0)) for a in (0, 1, 2) for b in (150., 500.)],
      weight=5)
def linear(ctx, order, axis, N, box, lo, hi):
    """Middle snapshot redshift symbolic, all values symbolic."""
    zm = ctx.real('zm', 7.02, 7.97)
    lc, zo, cubes, zs = run(ctx, order, zm, [7.0, 8.0], N, axis, box, 'linear', lo, hi)
    zo = np.asarray(ctx.concrete(zo), float)
    grid(ctx, zo, lo, hi, N, box)
    ctx.check(lc.shape == (N, N, len(zo)), 'one slice per redshift')
    ctx.check(len(zo) >= 1 and zo[0] >= 7.0 - 1e-9 and zo[-1] <= 8.0 + 1e-9 and (np.diff(zo) > 0).all(), 'slice redshifts are increasing and inside the snapshot range')
    for p, z in enumerate(zo):
        ctx.close(lc[:, :, p], expect(ctx, cubes, zs, float(z), p, axis, N), 'slice %d' % p, tol=1e-4)


@case(quick=[dict(axis=0, N=3, box=450., lo=None, hi=None), dict(axis=1, N=3, box=300., lo=7.0, hi=7.7)],
      thorough=[dict(axis=2, N=4, box=400., lo=None, hi=None)])
def dictionary(ctx, axis, N, box, lo, hi):
    """Dictionary input in an arbitrary key order, several wraps of the box."""
    lc, zo, cubes, zs = run(ctx, (2, 0, 1), 7.3, [7.0, 8.0], N, axis, box / N * 1.0, 'linear', lo, hi, as_dict=True)
    zo = np.asarray(ctx.concrete(zo), float)
    grid(ctx, zo, 7.0 if lo is None else lo, 8.0 if hi is None else hi, N, box / N * 1.0)
    for p, z in enumerate(zo):
        ctx.close(lc[:, :, p], expect(ctx, cubes, zs, float(z), p, axis, N), 'slice %d' % p, tol=1e-4)


@case(quick=[dict(axis=0, N=2, box=200.), dict(axis=2, N=2, box=200.)], thorough=[dict(axis=1, N=3, box=200.)])
def step(ctx, axis, N, box):
    zm = ctx.real('zm', 7.05, 7.95)
    lc, zo, cubes, zs = run(ctx, (0, 1, 2), zm, [7.0, 8.0], N, axis, box, 'step', 7.0, 8.0)
    zo = np.asarray(ctx.concrete(zo), float)
    grid(ctx, zo, 7.0, 8.0, N, box)
    for p, z in enumerate(zo):
        ctx.close(lc[:, :, p], expect(ctx, cubes, zs, float(z), p, axis, N, 'step'), 'slice %d switches half-way' % p, tol=1e-4)


@case(quick=[dict(N=2, how='sigmoid'), dict(N=2, how='step_cell')], thorough=[dict(N=3, how='sigmoid')])
def between_snapshots(ctx, N, how):
    """Every interpolation stays between the two bracketing snapshots."""
    lo = ctx.array('s0', (N, N, N), 0, 1, free=(0,) if how == 'step_cell' else None)
    hi = ctx.array('s1', (N, N, N), 0, 1, free=() if how == 'step_cell' else None)
    lc, zo = ctx.t2c.make_lightcone([lo, hi], file_redshifts=ctx.const(np.array([7.0, 8.0])), reading_function=lambda x: x, interpolation=how, box_length_mpc=180. * N, los_axis=0)
    for p in range(lc.shape[2]):
        a, b = lo[p % N], hi[p % N]
        ctx.ge(lc[:, :, p], ctx.np.minimum(a, b), 'not below both snapshots', tol=1e-5)
        ctx.le(lc[:, :, p], ctx.np.maximum(a, b), 'not above both snapshots', tol=1e-5)


@case(quick=[dict(axis=0, N=2, box=200.), dict(axis=1, N=2, box=200.), dict(axis=2, N=4, box=244.)], thorough=[dict(axis=2, N=3, box=300.), dict(axis=0, N=5, box=244.), dict(axis=1, N=4, box=180.)])
def velocity(ctx, axis, N, box):
    """Velocity light cones keep the three components and interpolate each."""
    t, conv = ctx.t2c, ctx.mod('conv')
    zs = [7.0, 7.4, 8.0]
    cubes = [ctx.array('v%d' % i, (3, N, N, N), -300, 300) for i in range(3)]
    dens = [ctx.array('d%d' % i, (N, N, N), 0.1, 2) for i in range(3)]
    order = (1, 2, 0)
    t.set_sim_constants(244)
    lc, zo = t.make_velocity_lightcone({zs[i]: cubes[i] for i in order}, {zs[i]: dens[i] for i in order}, los_axis=axis)
    zo = np.asarray(ctx.concrete(zo), float)
    ctx.check(lc.shape == (3, N, N, len(zo)), 'shape')
    for p, z in enumerate(zo):
        ctx.close(lc[:, :, :, p], expect(ctx, cubes, zs, float(z), p, axis, N), 'slice %d' % p, tol=1e-3)


@case(quick=[dict(mhz=1.5)], thorough=[dict(mhz=0.9)])
def equal_frequency(ctx, mhz):
    """Channels of equal width, snapshots at both ends reproduced."""
    zm = ctx.real('zm', 7.02, 7.18)
    lc, zo, cubes, zs = run(ctx, (0, 1, 2), zm, [7.0, 7.2], 2, 0, None, 'linear', 7.0, 7.2, depth_mhz=mhz)
    zo = np.asarray(ctx.concrete(zo), float)
    nu = ctx.mod('const').nu0 / (1 + zo)
    ctx.check(np.allclose(np.diff(nu), -mhz, rtol=1e-6) and abs(zo[-1] - 7.2) < 1e-9 and zo[0] >= 7.0, 'channels are equally spaced in frequency')
    for p, z in enumerate(zo):
        ctx.close(lc[:, :, p], expect(ctx, cubes, zs, float(z), p, 0, 2), 'slice %d' % p, tol=1e-4)


@case(quick=[dict(z=z) for z in (6.0, 8.5, 11.0)], thorough=[dict(z=z) for z in (5.0, 7.0, 9.3, 15.0, 20.0)])
def redshift_grid(ctx, z):
    """One comoving cell between neighbouring slices (one step from a slice at
    z, every box size)."""
    lc, const = ctx.mod('lightcone'), ctx.mod('const')
    L = ctx.real('L', 20.0, 300.0)
    n = 256
    H = 100 * const.h * np.sqrt(const.Omega0 * (1 + z) ** 3 + 1 - const.Omega0)
    dz = L / n * H / const.c
    zs = lc.redshifts_at_equal_comoving_distance(z, z + 0.75 * 20. / n * H / const.c, box_grid_n=n, box_length_mpc=L)
    ctx.check(len(zs) == 1, 'stops at the highest redshift')
    zs = lc.redshifts_at_equal_comoving_distance(z, z + 1.2 * dz, box_grid_n=n, box_length_mpc=L)
    ctx.close(zs[0], z, 'starts at the lowest redshift')
    ctx.close((zs[1] - zs[0]) / dz, 1.0, 'one cell per slice', tol=5e-3)
    ctx.check(len(zs) == 2, 'covers the range')


@case(quick=[dict(n=3)])
def frequency_grid(ctx, n):
    lc, const = ctx.mod('lightcone'), ctx.mod('const')
    z1 = ctx.real('z1', 6.0, 15.0)
    dnu = ctx.real('dnu', 0.05, 1.0)
    nu1 = const.nu0 / (1 + z1)
    zlow = const.nu0 / (nu1 + (n - 0.5) * dnu) - 1
    zs = lc.redshifts_at_equal_frequncy_width(zlow, z1, dnu)
    ctx.check(len(zs) == n, 'covers the range')
    for i in range(len(zs)):
        ctx.close(const.nu0 / (1 + zs[i]), nu1 + (len(zs) - 1 - i) * dnu, 'equal channels', tol=1e-5)


@case(quick=[dict(n=8, by='mpc', odd=True), dict(n=8, by='mhz', odd=True), dict(n=9, by='mpc', odd=False)],
      thorough=[dict(n=12, by='mhz', odd=False), dict(n=12, by='mpc', odd=True)])
def subvolume(ctx, n, by, odd):
    """A subvolume is a contiguous, centred piece of the light cone."""
    lcm, cosmo = ctx.mod('lightcone'), ctx.mod('cosmo')
    z = np.array(lcm.redshifts_at_equal_comoving_distance(7.0, 7.2, 64, 100.)) if not ctx.sym else np.asarray(ctx.concrete(lcm.redshifts_at_equal_comoving_distance(7.0, 7.2, 64, 100.)), float)
    z = z[:n]
    cube = ctx.array('c', (2, 2, n), -2, 2)
    c = n // 2
    cells = ctx.pick('cells', [2, 3, 4])
    cell = 100. / 64
    kw = dict(depth_mpc=cells * cell) if by == 'mpc' else dict(depth_mhz=cells * float((1420. / (1 + z[c]) - 1420. / (1 + z[c + 1]))))
    sub, dims, zz = ctx.t2c.get_lightcone_subvolume(cube, ctx.const(z), float(z[c]), odd_num_cells=odd, subtract_mean=False, fov_Mpc=100., **kw)
    zz = np.asarray(ctx.concrete(zz), float)
    i0 = int(np.argmin(abs(z - zz[0])))
    m = sub.shape[2]
    ctx.check(m == len(zz) and np.allclose(zz, z[i0:i0 + m]), 'redshifts belong to the slices')
    ctx.close(sub, cube[:, :, i0:i0 + m], 'slices are unchanged')
    if odd:
        ctx.check(m % 2 == 1, 'odd number of slices')
    ctx.check(abs(m - cells) <= 1 and i0 <= c < i0 + m and abs((i0 + (m - 1) / 2.) - c) <= 1, 'centred on the requested redshift with the requested depth')
    ctx.check(abs(float(ctx.concrete(dims[2])) - cells * cell) < 0.1 and dims[0] == 100., 'dimensions in Mpc')
    s2, _, _ = ctx.t2c.get_lightcone_subvolume(cube, ctx.const(z), float(z[c]), odd_num_cells=odd, subtract_mean=True, fov_Mpc=100., **kw)
    ctx.close(s2, sub - sub.mean(axis=(0, 1)).reshape(1, 1, -1), 'mean subtracted slice by slice')


@case(quick=[dict(zs=(7.0, 7.03, 7.08, 7.5, 7.52, 8.0), axis=0, N=2, box=200.), dict(zs=(7.0, 7.1, 7.2, 7.3, 7.4, 7.9), axis=2, N=2, box=300.)],
      thorough=[dict(zs=(7.0, 7.03, 7.08, 7.5, 7.52, 8.0), axis=1, N=3, box=90.), dict(zs=tuple(7 + 0.05 * i for i in range(12)), axis=0, N=2, box=150.)])
def dense_snapshots(ctx, zs, axis, N, box):
    """Snapshots denser than the slices: every slice still uses its own bracket,
    for scalar and velocity light cones and both interpolations."""
    t = ctx.t2c
    ctx.mod('conv').LB = box
    cubes = [ctx.array('s%d' % i, (N, N, N), -3, 3) for i in range(len(zs))]
    for how in ('linear', 'step'):
        for order in (range(len(zs)), list(range(1, len(zs))) + [0]):
            lc, zo = t.make_lightcone([cubes[i] for i in order], file_redshifts=ctx.const(np.array([zs[i] for i in order])), reading_function=lambda x: x, los_axis=axis, interpolation=how, box_length_mpc=box)
            zo = np.asarray(ctx.concrete(zo), float)
            for p, z in enumerate(zo):
                ctx.close(lc[:, :, p], expect(ctx, cubes, list(zs), float(z), p, axis, N, how), 'slice %d' % p, tol=1e-4)
    vel = [ctx.array('v%d' % i, (3, N, N, N), -3, 3) for i in range(len(zs))]
    lc, zo = t.make_velocity_lightcone({z: v for z, v in zip(zs, vel)}, {z: c for z, c in zip(zs, cubes)}, los_axis=axis)
    zo = np.asarray(ctx.concrete(zo), float)
    for p, z in enumerate(zo):
        ctx.close(lc[:, :, :, p], expect(ctx, vel, list(zs), float(z), p, axis, N), 'velocity slice %d' % p, tol=1e-4)


@case(quick=[dict(order=(2, 0, 1), axis=1, N=2, box=200.)], thorough=[dict(order=(1, 2, 0), axis=0, N=3, box=150.)])
def reader(ctx, order, axis, N, box):
    """Snapshots that a reading function loads, named in any way, with their redshifts listed: each name is read with it."""
    zs = [7.0, 7.4, 8.0]
    cubes = [ctx.array('s%d' % i, (N, N, N), -3, 3) for i in range(3)]
    names = ['run-%d' % (9 - i) for i in range(3)]
    lc, zo = ctx.t2c.make_lightcone([names[i] for i in order], file_redshifts=[zs[i] for i in order], reading_function=lambda s: cubes[names.index(s)], z_low=7.0, z_high=8.0,
                                    los_axis=axis, box_length_mpc=box)
    zo = np.asarray(ctx.concrete(zo), float)
    grid(ctx, zo, 7.0, 8.0, N, box)
    ctx.check(lc.shape == (N, N, len(zo)), 'one slice per redshift')
    for p, z in enumerate(zo):
        ctx.close(lc[:, :, p], expect(ctx, cubes, zs, float(z), p, axis, N), 'slice %d' % p, tol=1e-4)


@case(quick=[dict(order=(2, 0, 1), axis=0, N=2, box=200., given=False, how='list'), dict(order=(0, 2, 1), axis=2, N=2, box=200., given=True, how='list'),
             dict(order=(0, 2, 1), axis=1, N=2, box=200., given=False, how='text'), dict(order=(1, 2, 0), axis=0, N=2, box=200., given=True, how='text'),
             dict(order=(0, 1, 2), axis=2, N=2, box=200., given=False, how='directory')],
      thorough=[dict(order=(1, 0, 2), axis=1, N=3, box=150., given=False, how=h) for h in ('list', 'text', 'directory')])
def files(ctx, order, axis, N, box, given, how):
    """Snapshots in files: the redshifts are those of the names unless given, and
    the light cone is that of their contents; the names may be listed, stand in a
    text file or be all those of a directory, and the redshifts in a file too."""
    import os
    zs = [7.0, 7.4, 8.0]
    d = ctx.tmp()
    os.mkdir(d + '/in')
    cubes = [ctx.array('s%d' % i, (N, N, N), -3, 3) for i in range(3)]
    H = ctx.mod('helper_functions')
    names = [d + '/in' + ('/cube%d.cbin' % (5 - i) if given else '/dT_z=%.3f.cbin' % zs[i]) for i in range(3)]
    for n, c in zip(names, cubes):
        H.save_cbin(n, c, bits=64, order='F')
    listed, red = [names[i] for i in order], [zs[i] for i in order] if given else None
    if how == 'text':
        ctx.write_text(d + '/names.txt', '\n'.join(listed) + '\n')
        listed = d + '/names.txt'
        if given:
            ctx.write_text(d + '/redshifts.txt', '\n'.join('%.2f' % r for r in red) + '\n')
            red = d + '/redshifts.txt'
    elif how == 'directory':
        listed = d + '/in'
    lc, zo = ctx.t2c.make_lightcone(listed, file_redshifts=red, cbin_bits=64, cbin_order='F', z_low=7.0, z_high=8.0, los_axis=axis, box_length_mpc=box)
    zo = np.asarray(ctx.concrete(zo), float)
    grid(ctx, zo, 7.0, 8.0, N, box)
    ctx.check(lc.shape == (N, N, len(zo)), 'one slice per redshift')
    for p, z in enumerate(zo):
        ctx.close(lc[:, :, p], expect(ctx, cubes, zs, float(z), p, axis, N), 'slice %d' % p, tol=1e-4)


@case(quick=[dict(axis=0, how='list'), dict(axis=2, how='text')], thorough=[dict(axis=1, how='text'), dict(axis=1, how='list')])
def velocity_files(ctx, axis, how):
    """Velocity light cones from files: momenta over the density of the same
    snapshot, in the units of its redshift."""
    t = ctx.t2c
    t.set_sim_constants(244)
    N, zs, order = 2, [7.0, 7.4, 8.0], (2, 0, 1)
    L = float(ctx.concrete(ctx.mod('conv').LB))
    d = ctx.tmp()
    mom = [ctx.array('m%d' % i, (3, N, N, N), -3, 3) for i in range(3)]
    rho = [1 + ctx.det(i + 1, N, N, N) for i in range(3)]
    fv, fd = [d + '/%.3fv_all.dat' % z for z in zs], [d + '/%.3fn_all.dat' % z for z in zs]
    for i in range(3):
        ctx.mod('vel_file').VelocityFile().write_to_file(fv[i], mom[i])
        ctx.mod('density_file').DensityFile().write_to_file(fd[i], raw_density=ctx.const(rho[i]))
    v, r = [fv[i] for i in order], [fd[i] for i in order]
    if how == 'text':
        for name, l in (('v', v), ('n', r)):
            ctx.write_text(d + '/%s.txt' % name, '\n'.join(l) + '\n')
        v, r = d + '/v.txt', d + '/n.txt'
    lc, zo = t.make_velocity_lightcone(v, r, los_axis=axis)
    zo = np.asarray(ctx.concrete(zo), float)
    grid(ctx, zo, 7.0, 8.0, N, L)
    s = float(ctx.concrete(ctx.mod('conv').velconvert(0.0)))
    cubes = [mom[i] * ctx.const(8.0 / rho[i]) * (1 + zs[i]) for i in range(3)]
    ctx.check(lc.shape == (3, N, N, len(zo)), 'three components')
    for p, z in enumerate(zo):
        ctx.close(lc[:, :, :, p] / s, expect(ctx, cubes, zs, float(z), p, axis, N), 'slice %d' % p, tol=1e-2)
