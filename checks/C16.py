"""Simulation files: what is written is read back; layouts, units and redshifts."""
import os
import numpy as np
from symex.harness import case

STUBS = ['binary files: typed slots at byte offsets (symex/fsmodel.py); numbers in text files are unique literals mapped back to the symbol',
         'pickle, numpy.save/savez/load: the saved object; storage rounding to 32 bits is not modelled (tolerance 1e-5)']
OUTSIDE = 'meshes larger than listed; FITS, HDF5, csv and other files written by third-party libraries; rounding of 32-bit storage'

TOL = 2e-5


def fortran(ctx, a):
    """Values in Fortran order."""
    return ctx.np.array([a[p[::-1]] for p in np.ndindex(*a.shape[::-1])])


def zname(ctx, z):
    return ctx.text(z)


@case(quick=[dict(shape=(2, 3, 2), old=o, neutral=n, binary=b) for o in (0, 1) for n in (0, 1) for b in (0, 1)], thorough=[dict(shape=(3, 3, 3), old=o, neutral=1, binary=b) for o in (0, 1) for b in (0, 1)])
def xfrac_round_trip(ctx, shape, old, neutral, binary):
    X = ctx.mod('xfrac_file').XfracFile
    d, z = ctx.tmp(), ctx.real('z', 5, 20)
    fn = d + '/xfrac3d_%s.bin' % zname(ctx, z)
    x = ctx.array('x', shape, 0, 1)
    x0 = x.copy()
    kw = dict(old_format=bool(old), neutral=bool(neutral), binary_format=bool(binary))
    X().write_to_file(fn, x, **kw)
    ctx.close(x, x0, 'data not modified')
    f = X(fn, **kw)
    ctx.close(f.xi, x, 'written data are read back', tol=TOL)
    ctx.close(f.z, z, 'redshift from the file name', tol=1e-9)
    ctx.check((f.mesh_x, f.mesh_y, f.mesh_z) == tuple(shape), 'mesh')
    head, body = ctx.read_binary(fn, [('i4', 3 if binary else 6), ('f4' if old else 'f8', x.size)])
    ctx.equal_int(head if binary else head[1:4], ctx.np.array(shape), 'mesh in the header')
    ctx.close(body, fortran(ctx, 1 - x if neutral else x), 'values in Fortran order', tol=TOL)


@case(quick=[dict(shape=(2, 3, 2), old=o, neutral=n, binary=b) for o in (0, 1) for n, b in ((0, 0), (1, 0), (1, 1))])
def xfrac_layout(ctx, shape, old, neutral, binary):
    """Fortran unformatted (with record markers) and plain binary files."""
    X = ctx.mod('xfrac_file').XfracFile
    d = ctx.tmp()
    fn = d + '/xfrac3d_9.938.bin'
    x = ctx.array('x', shape, 0, 1)
    t = 'f4' if old else 'f8'
    n = x.size * (4 if old else 8)
    if binary:
        ctx.write_binary(fn, [('i4', shape), (t, fortran(ctx, x))])
    else:
        ctx.write_binary(fn, [('i4', [12]), ('i4', shape), ('i4', [12]), ('i4', [n]), (t, fortran(ctx, x)), ('i4', [n])])
    f = X(fn, old_format=bool(old), neutral=bool(neutral), binary_format=bool(binary))
    ctx.close(f.xi, 1 - x if neutral else x, 'cells are where the simulation put them', tol=TOL)
    ctx.close(f.z, 9.938, 'redshift from the file name', tol=1e-9)
    if not binary:
        H = ctx.mod('helper_functions')
        ctx.equal_int(H.get_mesh_size(fn), ctx.np.array(shape), 'mesh size of the file')
        if not old and not neutral:
            a, t = H.get_data_and_type(fn)
            ctx.close(a, x, 'data by file name', tol=TOL)
            ctx.check(t == 'xfrac', 'type by file name')
            ctx.close(ctx.mod('read_files').read_c2ray_files(fn, 'xfrac'), x, 'reader function', tol=TOL)
            ctx.close(ctx.mod('read_files').read_grizzly_files(fn), x, 'reader function', tol=TOL)


@case(quick=[dict(shape=(2, 3, 2)), dict(shape=(3, 2, 2), cgs=True)], thorough=[dict(shape=(3, 3, 3))])
def density(ctx, shape, cgs=False):
    D, H, const, conv = ctx.mod('density_file').DensityFile, ctx.mod('helper_functions'), ctx.mod('const'), ctx.mod('conv')
    conv.nbox_fine = 8      # a coarse simulation: keeps the physical densities of the tiny mesh within the range of 32-bit numbers
    d, z = ctx.tmp(), ctx.real('z', 5, 20)
    fn = d + '/%sn_all.dat' % zname(ctx, z)
    fac = float(ctx.concrete(const.rho_crit_0)) * (shape[0] / 8.0) ** 3 * float(ctx.concrete(const.OmegaB))
    x = ctx.array('x', shape, 0, 10)
    w = D()
    if cgs:
        w.write_to_file(fn, cgs_density=x * fac)
    else:
        w.write_to_file(fn, raw_density=x)
        ctx.close(w.cgs_density / fac, x, 'physical units of the written data', tol=TOL)
    f = D(fn)
    ctx.close(f.raw_density, x, 'written data are read back', tol=10 * TOL)
    ctx.close(f.cgs_density / fac, x, 'physical density: critical density times the baryon fraction per mean cell mass', tol=10 * TOL)
    ctx.close(f.z, z, 'redshift from the file name', tol=1e-9)
    head, body = ctx.read_binary(fn, [('i4', 3), ('f4', x.size)])
    ctx.equal_int(head, ctx.np.array(shape), 'mesh in the header')
    ctx.close(body, fortran(ctx, x), 'values in Fortran order', tol=10 * TOL)
    ctx.equal_int(H.get_mesh_size(fn), ctx.np.array(shape), 'mesh size of the file')
    a, t = H.get_data_and_type(fn)
    ctx.close(a / fac, x, 'data by file name', tol=10 * TOL)
    b, t2 = H.get_data_and_type(f, raw_density=True)
    ctx.close(b, x, 'raw data', tol=10 * TOL)
    ctx.check(t == t2 == 'density', 'type')
    ctx.close(ctx.mod('read_files').read_c2ray_files(fn, 'dens') / fac, x, 'reader function', tol=10 * TOL)


@case(quick=[dict(shape=(2, 1, 3))], thorough=[dict(shape=(2, 3, 2))])
def clumping(ctx, shape):
    C = ctx.mod('clumping_file').ClumpingFile if hasattr(ctx.t2c, 'clumping_file') else ctx.t2c.ClumpingFile
    d, z = ctx.tmp(), ctx.real('z', 5, 20)
    fn = d + '/%sc_all.dat' % zname(ctx, z)
    x = ctx.array('x', shape, 0, 10)
    C().write_to_file(fn, x)
    f = C(fn)
    ctx.close(f.raw_clumping, x, 'written data are read back', tol=10 * TOL)
    ctx.close(f.z, z, 'redshift from the file name', tol=1e-9)
    head, body = ctx.read_binary(fn, [('i4', 3), ('f4', x.size)])
    ctx.equal_int(head, ctx.np.array(shape), 'mesh in the header')
    ctx.close(body, fortran(ctx, x), 'values in Fortran order', tol=10 * TOL)


@case(quick=[dict(shape=(2, 1, 3)), dict(shape=(1, 2, 2), symz=True)], thorough=[dict(shape=(2, 3, 2))])
def velocity(ctx, shape, symz=False):
    """Momentum in file units to peculiar velocity in km/s."""
    V, D = ctx.mod('vel_file').VelocityFile, ctx.mod('density_file').DensityFile
    const, conv = ctx.mod('const'), ctx.mod('conv')
    d = ctx.tmp()
    z = ctx.real('z', 5, 20) if symz else 7.3
    fn, fd = d + '/%sv_all.dat' % zname(ctx, z), d + '/%sn_all.dat' % zname(ctx, z)
    x = ctx.array('x', (3,) + shape, -3, 3)
    rho = 1 + ctx.det(3, *shape)
    V().write_to_file(fn, x)
    D().write_to_file(fd, ctx.const(rho))
    f = V(fn)
    c = lambda v: float(ctx.concrete(v))
    H0, Om, h, Mpc = c(const.H0), c(const.Omega0), c(const.h), c(const.Mpc)
    unit = (244.0 / h) / 8000 * Mpc * 1.5 * np.sqrt(Om) * H0 / Mpc * 1e5 / 1e5        # km/s at z = 0 times 1+z
    ctx.close(f.raw_velocity, x, 'written data are read back', tol=TOL)
    ctx.close(f.z, z, 'redshift from the file name', tol=1e-9)
    ctx.close(f.kmsrho8 / unit, x * (1 + z), 'momentum units', tol=1e-3)
    want = x * (1 + z) * ctx.const(8.0 / rho)
    for dens in (ctx.const(rho), fd, D(fd)):
        ctx.close(f.get_kms_from_density(dens) / unit, want, 'velocity = momentum / density', tol=1e-2)
    ctx.close(ctx.mod('read_files').read_c2ray_files(fn, 'vel', density_file=fd) / unit, want, 'reader function', tol=1e-2)
    head, body = ctx.read_binary(fn, [('i4', 3), ('f4', x.size)])
    ctx.equal_int(head, ctx.np.array(shape), 'mesh in the header')
    ctx.close(body, fortran(ctx, x), 'values in Fortran order', tol=TOL)


@case(quick=[dict(kind=k, old=o) for k in ('temper', 'irate') for o in (0, 1)] + [dict(kind='irate', old=o, binary=True) for o in (0, 1)])
def temper_irate(ctx, kind, old, binary=False, shape=(2, 3, 2)):
    d = ctx.tmp()
    fn = d + ('/Temper3D_8.500.bin' if kind == 'temper' else '/IonRates3_8.500.bin')
    x = ctx.array('x', shape, 0, 100)
    n = x.size * 4
    if binary:
        ctx.write_binary(fn, [('i4', shape), ('f4', fortran(ctx, x))])
    else:
        ctx.write_binary(fn, [('i4', [12]), ('i4', shape), ('i4', [12]), ('i4', [n]), ('f4', fortran(ctx, x)), ('i4', [n])])
    if kind == 'temper':
        f = ctx.mod('temper_file').TemperFile(fn, old_format=bool(old))
        got = f.temper
        H = ctx.mod('helper_functions')
        ctx.equal_int(H.get_mesh_size(fn), ctx.np.array(shape), 'mesh size of the file')
        if not old:
            a, t = H.get_data_and_type(fn)
            ctx.close(a, x, 'data by file name', tol=1e-4)
            ctx.check(t == 'temper', 'type by file name')
    else:
        f = ctx.mod('irate_file').IonRateFile(fn, old_format=bool(old), binary_format=binary)
        got = f.irate
    ctx.close(got, x, 'cells are where the simulation put them', tol=1e-4)
    ctx.close(f.z, 8.5, 'redshift from the file name', tol=1e-9)


@case(quick=[dict(shape=(2, 3, 2), bits=b, order=o) for b in (32, 64) for o in 'CF'] + [dict(shape=(2, 3), bits=32, order='F')], thorough=[dict(shape=(3, 2, 4), bits=64, order='F')])
def cbin(ctx, shape, bits, order):
    H = ctx.mod('helper_functions')
    d = ctx.tmp()
    x = ctx.array('x', shape, -2, 2)
    x0 = x.copy()
    t = 'f4' if bits == 32 else 'f8'
    vals = fortran(ctx, x) if order == 'F' else x.reshape(-1)
    fn = d + '/a.cbin'
    H.save_cbin(fn, x, bits=bits, order=order)
    ctx.close(H.read_cbin(fn, bits=bits, order=order, dimensions=len(shape)), x, 'written data are read back', tol=TOL)
    head, body = ctx.read_binary(fn, [('i4', len(shape)), (t, x.size)])
    ctx.equal_int(head, ctx.np.array(shape), 'mesh in the header')
    ctx.close(body, vals, 'order of the values', tol=TOL)
    if len(shape) == 3:
        ctx.equal_int(H.get_mesh_size(fn), ctx.np.array(shape), 'mesh size of the file')
        a, ty = H.get_data_and_type(fn, cbin_bits=bits, cbin_order=order)
        ctx.close(a, x, 'data by file name', tol=TOL)
    k = 4 * len(shape)
    n = x.size * bits // 8
    ctx.write_binary(d + '/b.cbin', [('i4', [k]), ('i4', shape), ('i4', [k]), ('i4', [n]), (t, vals), ('i4', [n])])
    ctx.close(H.read_cbin(d + '/b.cbin', bits=bits, order=order, dimensions=len(shape), records=True), x, 'file with record markers', tol=TOL)
    ctx.close(x, x0, 'data not modified')


@case(quick=[dict(n=2, bits=b, order=o) for b in (32, 64) for o in 'CF'], thorough=[dict(n=3, bits=64, order='F')])
def raw_binary(ctx, n, bits, order):
    H = ctx.mod('helper_functions')
    d = ctx.tmp()
    x = ctx.array('x', (n, n, n), -2, 2)
    fn = d + '/a.bin'
    H.save_raw_binary(fn, x, bits=bits, order=order)
    ctx.close(H.read_raw_binary(fn, bits=bits, order=order), x, 'written data are read back', tol=TOL)
    body, = ctx.read_binary(fn, [('f4' if bits == 32 else 'f8', x.size)])
    ctx.close(body, fortran(ctx, x) if order == 'F' else x.reshape(-1), 'order of the values', tol=TOL)
    if bits == 32 and order == 'C':
        ctx.close(ctx.mod('read_files').read_21cmfast_files(fn), x, '21cmFAST files', tol=TOL)
    ok = H.save_data(d + '/b.bin', x, bits=bits, order=order)
    ctx.check(ok, 'saved')
    ctx.close(H.read_raw_binary(d + '/b.bin', bits=bits, order=order), x, 'saved by extension', tol=TOL)


@case(quick=[dict(shape=(2, 3, 2))])
def generic_files(ctx, shape):
    """save_data and the dictionary files by extension."""
    H, R = ctx.mod('helper_functions'), ctx.mod('read_files')
    d = ctx.tmp()
    x = ctx.array('x', shape, -2, 2)
    y = ctx.array('y', (2,), -2, 2)
    s = ctx.real('s', 0, 1)
    ctx.check(H.save_data(d + '/a_dbt.npy', x), 'saved')
    a, t = H.get_data_and_type(d + '/a_dbt.npy')
    ctx.close(a, x, 'npy', tol=1e-9)
    ctx.check(H.save_data(d + '/a.cbin', x, bits=64, order='F'), 'saved')
    ctx.close(H.read_cbin(d + '/a.cbin', bits=64, order='F'), x, 'cbin', tol=1e-9)
    ctx.check(not H.save_data(d + '/a.xyz', x), 'unknown type refused')
    for ext in ('pkl', 'npz'):
        R.write_dictionary_data({'x': x, 'y': y}, d + '/d.' + ext)
        o = R.read_dictionary_data(d + '/d.' + ext)
        ctx.check(sorted(o) == ['x', 'y'], 'keys')
        ctx.close(o['x'], x, 'dictionary entry', tol=1e-9)
        ctx.close(o['y'], y, 'dictionary entry', tol=1e-9)
    R.write_dictionary_data({'x': x}, d + '/noext', format='pickle')
    ctx.close(R.read_dictionary_data(d + '/noext', format='pickle')['x'], x, 'explicit format', tol=1e-9)


@case(quick=[dict(ext=e) for e in ('json', 'yaml', 'csv', 'xlsx')])
def dictionary_texts(ctx, ext):
    """Dictionaries of numbers come back from the text formats; nested ones too where the format has them."""
    R = ctx.mod('read_files')
    d = ctx.tmp()
    x = [ctx.real('x%d' % i, -2, 2) for i in range(3)]
    n = [ctx.int('n%d' % i, -5, 5) for i in range(3)]
    flat = ext in ('csv', 'xlsx')
    data = {'x': x, 'n': n, 'name': ['a', 'b', 'c']}
    if not flat:
        data['s'], data['i'], data['flag'], data['none'], data['empty'] = ctx.real('s', -1, 1), ctx.int('i', -1, 1), False, None, []
        data['inner'] = {'z': x[0], 'text': 'value', 'deep': {'k': [n[2], x[1]]}}
    for fn, fmt in ((d + '/d.' + ext, None), (d + '/plain', ext), (d + '/capitals', ext.upper())):
        if ext == 'xlsx' and fmt:
            continue
        R.write_dictionary_data(data, fn, format=fmt)
        o = R.read_dictionary_data(fn, format=fmt)
        ctx.check(sorted(o) == sorted(data), 'keys')
        ctx.check(list(o['name']) == ['a', 'b', 'c'], 'texts')
        ctx.check(len(o['x']) == 3 and len(o['n']) == 3, 'lengths')
        for i in range(3):
            ctx.close(o['x'][i], x[i], 'number', tol=1e-9)
            ctx.close(o['n'][i], n[i], 'integer', tol=1e-9)
        if not flat:
            ctx.close(o['s'], data['s'], 'single number', tol=1e-9)
            ctx.close(o['i'], data['i'], 'single integer', tol=1e-9)
            ctx.check(o['flag'] is False and o['none'] is None and list(o['empty']) == [], 'other entries')
            q = o['inner']
            ctx.check(sorted(q) == ['deep', 'text', 'z'] and q['text'] == 'value' and list(q['deep']) == ['k'], 'nested keys')
            ctx.close(q['z'], x[0], 'nested number', tol=1e-9)
            ctx.close(q['deep']['k'][0], n[2], 'nested integer', tol=1e-9)
            ctx.close(q['deep']['k'][1], x[1], 'nested number', tol=1e-9)


@case(quick=[dict(mass='hm'), dict(mass='lm'), dict(mass='both')])
def sources(ctx, mass):
    """Source lists: 1-based cells and linear grid masses in the file, 0-based cells and solar masses in memory."""
    S, const, conv = ctx.mod('source_file').SourceFile, ctx.mod('const'), ctx.mod('conv')
    unit = float(ctx.concrete(conv.M_grid)) * float(ctx.concrete(const.solar_masses_per_gram))
    d = ctx.tmp()
    n = 3
    z = ctx.real('z', 5, 20)
    fn = d + '/%s-coarsest_wsubgrid_sources.dat' % zname(ctx, z)
    pos = ctx.array('p', (n, 3), 0, 6, kind='int')
    hm = ctx.array('hm', (n,), 10, 1000)
    lm = ctx.array('lm', (n,), 1, 100)
    txt = '%d 0.0\n' % n
    for i in range(n):
        txt += ' '.join(ctx.text(pos[i, k] + 1) for k in range(3)) + ' ' + ctx.text(hm[i]) + ' ' + ctx.text(lm[i]) + '\n\n'
    ctx.write_text(fn, txt)
    f = S(fn, mass=mass)
    ctx.close(f.z, z, 'redshift from the file name', tol=1e-9)
    ctx.equal_int(f.sources_list[:, :3], pos, 'cells')
    cols = dict(hm=[hm], lm=[lm], both=[hm, lm])[mass]
    ctx.check(f.sources_list.shape == (n, 3 + len(cols)), 'columns')
    for k, c in enumerate(cols):
        ctx.close(f.sources_list[:, 3 + k] / unit, c, 'mass in solar masses', tol=1e-5)
    w = S(None, mass=mass)
    lst = f.sources_list
    fn2 = d + '/9.5-coarsest_wsubgrid_sources.dat'
    w.write_to_file(fn2, lst)
    g = S(fn2, mass=mass)
    ctx.equal_int(g.sources_list[:, :3], pos, 'cells are read back')
    ctx.close(g.sources_list[:, 3:] / unit, lst[:, 3:] / unit, 'masses are read back', tol=1e-5)


@case(quick=[dict(names=('xfrac3d_%s.bin',)), dict(names=('%sn_all.dat',)), dict(names=('Temper3D_%s.bin', 'dbt_%s_v2.npy', '%s.cbin'))])
def redshift_from_name(ctx, names):
    H, L = ctx.mod('helper_functions'), ctx.mod('lightcone')
    z = ctx.real('z', 5, 20)
    for nm in names:
        ctx.close(H.determine_redshift_from_filename('/some/dir_99.9999/' + nm % ctx.text(z)), z, 'redshift in a file name', tol=1e-9)
    ctx.close(L._get_file_redshifts(None, [nm % ctx.text(z) for nm in names])[0], z, 'list of files', tol=1e-9)
    ctx.check(H.determine_redshift_from_filename('nothing.dat') == -1, 'no number in the name')


@case(quick=[dict(bracket=False), dict(bracket=True)])
def redshift_lists(ctx, bracket):
    """Directory listings: sorted redshifts, limited to a range or bracketing it."""
    H, U = ctx.mod('helper_functions'), ctx.mod('usefuls')
    d = ctx.tmp()
    n = 3
    z = [ctx.real('z%d' % i, 5, 20) for i in range(n)]
    for v in z:
        ctx.write_text(d + '/xfrac3d_%s.bin' % ctx.text(v), '')
    for i in range(n):
        for j in range(i):
            ctx.assume(ctx.np.logical_or(z[i] > z[j] + 1e-3, z[i] < z[j] - 1e-3))
    a = H.get_xfrac_redshifts(d)
    srt = ctx.np.sort(ctx.np.array(z))
    ctx.close(a, srt, 'all redshifts in increasing order', tol=1e-9)
    ctx.close(U.get_zs_list(d), srt, 'all redshifts in increasing order', tol=1e-9)
    lo, hi = ctx.real('lo', 5, 20), ctx.real('hi', 5, 20)
    ctx.assume(lo <= hi)
    if bracket:
        ctx.assume(lo >= srt[0])
        ctx.assume(hi <= srt[n - 1])
    b = H.get_xfrac_redshifts(d, z_low=lo, z_high=hi, bracket=bracket)
    keep = [bool(ctx.np.logical_and(v >= lo, v <= hi)) for v in srt]
    if bracket:
        first = max(i for i in range(n) if bool(srt[i] <= lo))
        last = min(i for i in range(n) if bool(srt[i] >= hi))
        want = [srt[i] for i in range(first, last + 1)]
    else:
        want = [srt[i] for i in range(n) if keep[i]]
    ctx.check(len(b) == len(want), 'number of redshifts in the range')
    if want:
        ctx.close(b, ctx.np.array(want), 'redshifts in the range', tol=1e-9)
