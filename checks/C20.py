"""Gridding of haloes, sources and densities."""
import numpy as np
from symex.harness import case

STUBS = ['scipy.stats.binned_statistic_dd = sums over half-open cells, the last one closed; halo masses of the line intensity recipes are concrete']
OUTSIDE = 'more objects or cells than listed; haloes outside the box'


def cells(ctx, p, v, n):
    """Sum of the values of the objects in each cell."""
    N = ctx.np
    out = N.zeros((n, n, n)) + 0 * v[0]
    for i in range(n):
        for j in range(n):
            for k in range(n):
                s = 0 * v[0]
                for q in range(len(v)):
                    inside = True
                    for a, c in zip((p[q, 0], p[q, 1], p[q, 2]), (i, j, k)):
                        t = N.logical_and(a >= c, a < c + 1) if c < n - 1 else a >= c
                        inside = N.logical_and(inside, t)
                    s = s + N.where(inside, v[q], 0 * v[q])
                out[i, j, k] = s
    return out


def away(ctx, p, n):
    """Positions not within rounding of a cell boundary."""
    for q in range(p.shape[0]):
        for a in range(3):
            for c in range(1, n):
                ctx.assume(ctx.np.logical_or(p[q, a] > c + 1e-6, p[q, a] < c - 1e-6))


@case(quick=[dict(cols=4, n=3), dict(cols=5, n=2)], thorough=[dict(cols=5, n=4)])
def sources(ctx, cols, n, mesh=2):
    S = ctx.mod('source_file').SourceFile
    pos = ctx.array('p', (n, 3), 0, mesh - 1, kind='int')
    m = ctx.array('m', (n, cols - 3), 0, 100)
    f = S(None)
    f.sources_list = ctx.np.concatenate([pos * 1.0, m], axis=1)
    f.grid_sources(mesh)
    g = f.sources_coeval
    ctx.check(g.shape == (mesh,) * 3, 'mesh')
    for c in np.ndindex(mesh, mesh, mesh):
        w = 0.0
        for q in range(n):
            inside = ctx.np.logical_and(ctx.np.logical_and(pos[q, 0] == c[0], pos[q, 1] == c[1]), pos[q, 2] == c[2])
            w = w + ctx.np.where(inside, m[q].sum(), 0.0)
        ctx.close(g[c], w, 'total mass of the sources of a cell', tol=1e-6)
    ctx.close(g.sum(), m.sum(), 'no source is lost', tol=1e-6)


@case(quick=[dict(unit='mpc', n=2), dict(unit='cm', n=2), dict(unit=None, n=3)], thorough=[dict(unit='Mpc', n=3, grid=3)])
def halo_grid(ctx, unit, n, grid=2):
    M = ctx.mod('nbody_file')
    L = ctx.real('L', 50, 200)
    p = ctx.array('p', (n, 3), 0, grid)
    m = ctx.array('m', (n,), 1, 100)
    v = ctx.array('v', (n,), 1, 100)
    away(ctx, p, grid)
    h = M.Halo2Grid(L, grid)
    mpc = p * L / grid
    if unit is None:
        h.set_halo_pos(p)
    else:
        h.set_halo_pos(mpc if unit.lower() == 'mpc' else mpc * 3.085677581491367e+24, unit=unit)
    ctx.close(h.pos_grid, p, 'positions in units of cells', tol=1e-6)
    h.set_halo_mass(m, unit='Msun')
    ctx.close(h.mass_Msun, m, 'solar masses', tol=1e-9)
    want = cells(ctx, p, m, grid)
    got, edges, _ = h.value_on_grid(h.pos_grid, m)
    ctx.close(got, want, 'every halo is in the cell that contains it', tol=1e-6)
    ctx.close(got.sum(), m.sum(), 'no halo is lost', tol=1e-6)
    for e in edges:
        ctx.close(e, ctx.const(np.arange(grid + 1.0)), 'cells cover the box', tol=1e-9)
    for what, (pl, ml) in ((m, h.halo_mass_on_grid()), (v, h.halo_value_on_grid(v))):
        w = cells(ctx, p, what, grid)
        ctx.check(pl.shape[0] == len(ml), 'one value per occupied cell')
        ctx.close(ml.sum(), what.sum(), 'no halo is lost', tol=1e-6)
        for q in range(len(ml)):
            ctx.close(ml[q], w[int(pl[q, 0]), int(pl[q, 1]), int(pl[q, 2])], 'value of an occupied cell', tol=1e-6)


@case(quick=[dict()])
def mass_units(ctx):
    h = ctx.mod('nbody_file').Halo2Grid(100.0, 4)
    m = ctx.array('m', (2,), 1, 100)
    g = 1.988409870698051e+33
    for unit, f in (('Msun', 1.0), ('g', g), ('gram', g), ('kg', g / 1000)):
        h.set_halo_mass(m * f, unit=unit)
        ctx.close(h.mass_Msun, m, 'mass in ' + unit, tol=1e-9)


@case(quick=[dict(n=2)], thorough=[dict(n=4), dict(n=2, grid=3)])
def halo_list(ctx, n, grid=2):
    M = ctx.mod('nbody_file')
    p = ctx.array('p', (n, 3), 0, grid)
    m = ctx.array('m', (n,), 1, 100)
    away(ctx, p, grid)
    m0, x = m.copy(), p * 150.0 / grid
    x0 = x.copy()
    got, edges, _ = M.halo_list_to_grid(m, x, 150.0, grid)
    ctx.close(got, cells(ctx, p, m, grid), 'every halo is in the cell that contains it', tol=1e-6)
    ctx.close(m, m0, 'masses not modified')
    ctx.close(x, x0, 'positions not modified')


@case(quick=[dict(kind=k) for k in ('hi', 'cii1', 'cii3')])
def intensity(ctx, kind, grid=2):
    """Line intensity maps: every halo contributes its own luminosity to its own cell."""
    I = ctx.mod('line_intensity')
    p = ctx.array('p', (2, 3), 0, grid)
    away(ctx, p, grid)
    m = np.array([3e9, 2e11])
    z = 8.0
    if kind == 'hi':
        from astropy.cosmology import Planck18 as c
        fh = (1 - 0.249) * c.Ob0 / c.Om0
        vc = 96.6 * (178 * c.Om0 / 54.4) ** (1 / 6) * ((1 + z) / 3.3) ** 0.5 * (m / 1e11) ** (1 / 3)
        lum = 0.9 * fh * m * (m / c.h / 1e11) ** -0.58 * np.exp(-(10 ** 1.56 / vc) ** 3)
        f, unit = I.M_HI_on_grid, 'Msun'
    else:
        sfr = 2.25e-26 * (1 + (z - 7) * 7.5e-2) * m ** 2.59 * (1 + m / 8e8) ** -0.62 * (1 + m / 7e9) ** 0.4 * (1 + m / 1e11) ** -2.25
        a, b = {'cii1': (0.8475, 7.2203), 'cii3': (0.8727, 6.7250)}[kind]
        lum = 10 ** (a * np.log10(sfr) + b)
        f, unit = (lambda *k: I.L_CII_on_grid(*k, recipe='Silva2015m' + kind[-1])), 'Lsun'
    s = lum.max()
    got = f(z, m, p * 150.0 / grid, 150.0, grid)
    want = cells(ctx, p, ctx.const(lum / s), grid)
    ctx.close(got.value / s, want, 'luminosity of the haloes of a cell', tol=1e-6)
    ctx.check(str(got.unit) in (unit, 'solLum' if unit == 'Lsun' else 'solMass'), 'unit')


@case(quick=[dict(n=2, given=True), dict(n=2, given=False)], thorough=[dict(n=3, given=False)])
def pkdgrav(ctx, n, given):
    M = ctx.mod('nbody_file')
    d = ctx.array('d', (n, n, n), 0.5, 3)
    fn = ctx.tmp() + '/den'
    ctx.write_binary(fn, [('f4', d.reshape(-1))])
    got = M.read_pkdgrav_density_grid(fn, 100.0, nGrid=n if given else None)
    mean = d.sum() / d.size
    ctx.check(got.shape == (n, n, n), 'shape')
    for i, j, k in np.ndindex(n, n, n):
        ctx.close((got[i, j, k] + 1) * mean, d[k, j, i], 'density relative to the mean, x index first', tol=1e-4)
    ctx.close(got.sum() / got.size, 0.0, 'zero mean', tol=1e-4)
