"""Halo lists: which haloes are kept, and what their columns mean."""
import os
import numpy as np
from symex.harness import case

STUBS = ['numbers in text files are unique literals mapped back to the symbol; binary files are typed slots (symex/fsmodel.py)']
OUTSIDE = 'lists longer than listed; storage rounding to 32 bits'

NH = 3


def consts(ctx):
    const, conv = ctx.mod('const'), ctx.mod('conv')
    c = lambda v: float(ctx.concrete(v))
    return dict(msol=c(conv.M_grid) * c(const.solar_masses_per_gram), h=c(const.h), cell=c(conv.LB) / conv.nbox_fine,
                kms=(c(conv.LB) / conv.nbox_fine) * c(const.Mpc) * 1.5 * np.sqrt(c(const.Omega0)) * c(const.H0) / c(const.Mpc))


def rows(ctx, n, poslo=0.0):
    """n haloes of 19 columns, and the text of the file."""
    pos = ctx.array('pos', (n, 6), poslo, 7999)
    vel = ctx.array('vel', (n, 3), -2, 2)
    ang = ctx.array('l', (n, 3), -2, 2)
    disp = ctx.array('disp', (n, 3), 0, 2)
    mass = ctx.array('m', (n,), 1, 1000)
    lines = []
    for i in range(n):
        v = [pos[i, k] for k in range(6)] + [vel[i, k] for k in range(3)] + [ang[i, k] for k in range(3)] + [disp[i, k] for k in range(3)] + [0.5 + i, mass[i], 100.0 + i, 7.25]
        lines.append('  '.join(ctx.text(x) for x in v))
    return pos, vel, ang, disp, mass, lines


def selected(ctx, mass, lo, hi, nmax, start):
    """Indices of the expected haloes and whether the whole list was read."""
    out = []
    for i in range(max(0, start - 1), len(mass)):
        if nmax >= 0 and len(out) >= nmax:
            return out, False
        if bool(mass[i] > lo) and (hi is None or bool(mass[i] < hi)):
            out.append(i)
    return out, True


@case(quick=[dict(nmax=-1, start=0, hi=1), dict(nmax=1, start=0, hi=0), dict(nmax=2, start=2, hi=0), dict(nmax=0, start=0, hi=0), dict(nmax=2, start=0, hi=1), dict(nmax=-1, start=3, hi=0)], thorough=[dict(nmax=2, start=2, hi=1, n=4), dict(nmax=3, start=0, hi=1, n=5)])
def halo_list(ctx, nmax, start, hi, n=NH):
    H = ctx.mod('halo_list').HaloList
    k = consts(ctx)
    pos, vel, ang, disp, mass, lines = rows(ctx, n)
    lo, up = ctx.real('lo', 0, 1000), ctx.real('up', 0, 1000)
    for i in range(n):
        ctx.assume(ctx.np.logical_or(mass[i] > lo + 1e-3, mass[i] < lo - 1e-3))
        ctx.assume(ctx.np.logical_or(mass[i] > up + 1e-3, mass[i] < up - 1e-3))
    fn = ctx.tmp() + '/8.064halo.dat'
    ctx.write_text(fn, '\n'.join(lines) + '\n')
    f = H()
    r = f.read_from_file(fn, min_select_mass=lo * k['msol'], max_select_mass=up * k['msol'] if hi else None, max_select_number=nmax, startline=start)
    want, done = selected(ctx, mass, lo, up if hi else None, nmax, start)
    ctx.check(r is done, 'reports whether the whole list was read')
    ctx.close(f.z, 8.064, 'redshift from the file name', tol=1e-9)
    ctx.check(len(f.halos) == len(want), 'number of haloes in the mass range')
    if nmax >= 0:
        ctx.check(len(f.halos) <= nmax, 'no more haloes than requested')
    for h, i in zip(f.halos, want):
        ctx.close(h.pos, pos[i, :3], 'position', tol=1e-9)
        ctx.close(h.pos_cm, pos[i, 3:], 'centre of mass', tol=1e-9)
        ctx.close(h.vel, vel[i], 'velocity', tol=1e-9)
        ctx.close(h.l, ang[i], 'angular momentum', tol=1e-9)
        ctx.close(h.vel_disp, disp[i], 'velocity dispersion', tol=1e-9)
        ctx.close(h.m, mass[i], 'grid mass', tol=1e-9)
        ctx.close(h.mp, 100.0 + i, 'particles', tol=1e-9)
        ctx.close(h.solar_masses / k['msol'], mass[i], 'mass in solar masses', tol=1e-6)


@case(quick=[dict(nmax=-1, start=0, hi=1), dict(nmax=1, start=0, hi=0), dict(nmax=2, start=3, hi=0, out=100.0)], thorough=[dict(nmax=-1, start=0, hi=1, out=500.0, n=3), dict(nmax=2, start=0, hi=1, n=4)])
def cubep3m_full(ctx, nmax, start, hi, out=None, n=2):
    """Full text catalogues: header lines, units, and positions wrapped into the box."""
    M = ctx.mod('halo_list')
    pos, vel, ang, disp, mass, lines = rows(ctx, n, poslo=-4000.0)
    lo, up = ctx.real('lo', 0, 1000), ctx.real('up', 0, 1000)
    for i in range(n):
        ctx.assume(ctx.np.logical_or(mass[i] > lo + 1e-3, mass[i] < lo - 1e-3))
        ctx.assume(ctx.np.logical_or(mass[i] > up + 1e-3, mass[i] < up - 1e-3))
    lines = [' 17'] + lines[:1] + ['3'] + lines[1:]
    kind = [None, 0, None] + list(range(1, n))
    fn = ctx.tmp() + '/7.500halo.dat'
    ctx.write_text(fn, '\n'.join(lines) + '\n')
    f = M.HaloCubeP3MFull(box_len=244.0, output_len=out)
    k = consts(ctx)
    L = 244.0 if out is None else out
    r = f.read_from_file(fn, min_select_mass=lo * k['msol'], max_select_mass=up * k['msol'] if hi else None, max_select_number=nmax, startline=start)
    want, done = [], True
    for i in kind[max(0, start - 1):]:
        if nmax >= 0 and len(want) >= nmax:
            done = False
            break
        if i is not None and bool(mass[i] > lo) and not (hi and bool(mass[i] >= up)):
            want.append(i)
    ctx.check(r is done, 'reports whether the whole list was read')
    ctx.check(len(f.halos) == len(want), 'number of haloes in the mass range')
    s = L / 8000.0
    for h, i in zip(f.halos, want):
        for got, p in ((h.pos, pos[i, :3]), (h.pos_cm, pos[i, 3:])):
            w = p * s
            ctx.close(got, ctx.np.where(w < 0, w + L, w), 'position in the box', tol=1e-6)
            ctx.check(ctx.np.logical_and(got >= -1e-9, got <= L + 1e-9), 'positions lie in the box')
        ctx.close(h.vel / k['kms'], vel[i] * 8.5, 'velocity in km/s', tol=1e-6)
        ctx.close(h.vel_disp / k['kms'], disp[i] * 8.5, 'velocity dispersion in km/s', tol=1e-6)
        ctx.close(h.l / (k['kms'] * k['cell'] * k['msol'] * k['h'] ** 2), ang[i] * 8.5, 'angular momentum', tol=1e-6)
        ctx.close(h.m / (k['msol'] * k['h']), mass[i], 'mass in solar masses per h', tol=1e-6)
        ctx.close(h.mp, 100.0 + i, 'particles', tol=1e-9)
    m = f.get('m') if want else None
    if want:
        ctx.close(m / (k['msol'] * k['h']), ctx.np.array([mass[i] for i in want]), 'column of all haloes', tol=1e-6)
        ctx.close(f.get('vel') / k['kms'], ctx.np.array([vel[i] for i in want]) * 8.5, 'column of all haloes', tol=1e-6)


@case(quick=[dict(pid=True, mdef='vir', units=True), dict(pid=False, mdef='odc', units=True), dict(pid=False, mdef='vir', units=False), dict(pid=True, mdef='odc', units=False, node=1)])
def cubep3m_binary(ctx, pid, mdef, units, node=None):
    """Binary catalogues of one or all nodes."""
    M = ctx.mod('halo_list')
    d = ctx.tmp()
    n = {0: 1, 1: 2}
    H = []
    for i in n:
        os.mkdir(d + '/node%d' % i)
        parts = [('i4', [n[i]]), ('f4', [1.0, 2.0])]
        for j in range(n[i]):
            nm = 'n%d_%d_' % (i, j)
            g = lambda s, k, lo, hi: ctx.array(nm + s, (k,), lo, hi)
            h = dict(pos=g('pos', 3, -4000, 7999), mass=g('mass', 2, 1, 1000), r=g('r', 2, 1, 100), cm=ctx.const(np.array([7.0 + j, 5.0, 3.0])), vel=g('vel', 3, -2, 2), l=g('l', 3, -2, 2), disp=ctx.const(np.array([1.0, 2.0, 2.0])))
            parts += [('f4', h['pos']), ('f4', h['mass']), ('f4', h['r']), ('f4', h['cm']), ('f4', h['vel']), ('f4', h['l']), ('f4', h['disp']), ('f4', [0.0] * 3)]
            parts += [('i8', [0] * 50), ('f4', [0.0] * 300)] if pid else [('f4', [0.0] * 6)]
            if node is None or node == i:
                H.append(h)
        ctx.write_binary(d + '/node%d/7.500halo%d.dat' % (i, i), parts)
    f = M.HaloCubeP3M(d, z=7.5, node=node, mass_def=mdef, pid_flag=pid, cosm_unit=units)
    k = consts(ctx)
    ctx.check(f.nhalo == len(H) and len(f.halos) == len(H), 'all haloes of all nodes are read')
    sel = 0 if mdef == 'vir' else 1
    u = dict(pos=k['cell'] * k['h'], m=k['msol'] * k['h'], r=k['cell'] * k['h'], v=k['kms'] * 8.5, l=k['kms'] * 8.5 * k['cell'] * k['msol'] * k['h'] ** 2) if units else dict(pos=1, m=1, r=1, v=1, l=1)
    for h, w in zip(f.halos, H):
        p = w['pos'] * u['pos']
        if units:
            p = ctx.np.where(p < 0, p + 244.0, p)
        ctx.close(h.pos, p, 'position', tol=1e-3)
        ctx.close(h.pos_cm, w['cm'] * u['pos'], 'centre of mass', tol=1e-3)
        ctx.close(h.m / u['m'], w['mass'][sel], 'mass of the chosen definition', tol=0.02)
        ctx.close(h.r / u['r'], w['r'][sel], 'radius of the chosen definition', tol=1e-3)
        ctx.close(h.vel / u['v'], w['vel'], 'velocity', tol=1e-4)
        ctx.close(h.l / u['l'], w['l'], 'angular momentum', tol=1e-4)
        ctx.close(h.vel_disp / u['v'], 3.0, 'velocity dispersion', tol=1e-5)
    ctx.close(f.get('pos')[:, 0], ctx.np.array([h.pos[0] for h in f.halos]), 'column of all haloes', tol=1e-9)


COLS_LIST = ['#ID', 'DescID', 'Mvir', 'Vmax', 'Vrms', 'Rvir', 'Rs', 'Np', 'X', 'Y', 'Z', 'VX', 'VY', 'VZ', 'JX', 'JY', 'JZ', 'M200b', 'R200b']
COLS_ASCII = ['#id', 'num_p', 'mvir', 'mbound_vir', 'rvir', 'vmax', 'rvmax', 'vrms', 'x', 'y', 'z', 'vx', 'vy', 'vz', 'Jx', 'Jy', 'Jz', 'm200b', 'r200b']


@case(quick=[dict(ext='list', nmax=-1), dict(ext='ascii', nmax=-1, mdef='200b'), dict(ext='list', nmax=2, mdef='200b'), dict(ext='ascii', nmax=0)])
def rockstar(ctx, ext, nmax, mdef='vir', n=3):
    M = ctx.mod('halo_list')
    cols = COLS_LIST if ext == 'list' else COLS_ASCII
    g = lambda s, *sh: ctx.array(s, sh, -5, 5)
    a = ctx.real('a', 0.05, 1)
    mp = ctx.real('mp', 1, 10)
    v = ctx.array('v', (n, len(cols)), 1, 50)
    Om, Ol, h = ctx.real('Om', 0.1, 0.5), ctx.real('Ol', 0.5, 0.9), ctx.real('h', 0.5, 1)
    nh = 16 if ext == 'list' else 20
    lc, lp = (2, 5) if ext == 'list' else (3, 6)
    lines = [' '.join(cols)] + ['#'] * (nh - 1)
    lines[1] = '#a = ' + ctx.text(a)
    lines[lc] = '#Om = %s; Ol = %s; h = %s' % (ctx.text(Om), ctx.text(Ol), ctx.text(h))
    lines[lp] = '#Particle mass: %s Msun/h' % ctx.text(mp)
    lines += [' '.join(ctx.text(v[i, k]) for k in range(len(cols))) for i in range(n)]
    fn = ctx.tmp() + '/halos_0.' + ext
    ctx.write_text(fn, '\n'.join(lines) + '\n')
    f = M.HaloRockstar(mass_def=mdef)
    r = f.read_from_file(fn, max_select_number=nmax)
    cnt = n if nmax < 0 else min(n, nmax)
    ctx.check(len(f.halos) == cnt, 'number of haloes')
    ctx.check(r is (cnt == n), 'reports whether the whole list was read')
    ctx.close(1.0 / (1.0 + f.z), a, 'redshift of the header', tol=1e-9)
    ctx.close(ctx.np.array([f.Om, f.Ol, f.h, f.part_mass]), ctx.np.array([Om, Ol, h, mp]), 'cosmology of the header', tol=1e-9)
    low = [c.lower() for c in cols]
    c = lambda s: low.index(s)
    for i, hl in enumerate(f.halos):
        ctx.close(hl.pos, v[i, c('x'):c('x') + 3], 'position', tol=1e-9)
        ctx.close(hl.vel, v[i, c('vx'):c('vx') + 3], 'velocity', tol=1e-9)
        ctx.close(hl.l, v[i, c('jx'):c('jx') + 3], 'angular momentum', tol=1e-9)
        ctx.close(hl.vel_disp, v[i, c('vrms')], 'velocity dispersion', tol=1e-9)
        ctx.close(hl.m, v[i, c('m' + mdef)], 'mass of the chosen definition', tol=1e-9)
        ctx.close(hl.r, v[i, c('r' + mdef)], 'radius of the chosen definition', tol=1e-9)
        q = hl.m / mp
        ctx.le(ctx.np.abs(hl.mp - q), 0.5, 'number of particles', tol=1e-6)
