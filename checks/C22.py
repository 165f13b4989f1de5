"""UV maps of a light cone: cache file, checkpoints, interrupted runs and parameter checks."""
import os
import numpy as np
from symex.harness import case

STUBS = ['get_uv_map of one redshift returns an unconstrained map (its own behaviour is C21); antenna layout table: three antennas',
         'joblib: workers run one after another', 'pickle of the dictionary: the saved object is an independent copy']
OUTSIDE = 'more redshifts than listed; a crash inside the write of the file itself; cache formats other than pickle'

ZS = [9.0, 8.0004, 8.5, 12.25, 7.1]
N = 2


class Crash(Exception):
    pass


def setup(ctx, T, maps, crash=None, see=None):
    """get_uv_map of redshift z is maps[z]; it fails at redshift `crash`."""
    ant = np.array([[0., 0., 0.], [30., 40., 0.], [100., 5., 0.]])
    T.subarray_type_to_antxyz = lambda s, verbose=True: (ant, len(ant))

    def g(ncells, z, *a, **k):
        if see is not None:
            see.append((ncells, float(z), a, k))
        if crash is not None and abs(float(z) - crash) < 1e-9:
            raise Crash('interrupted')
        return maps[float(z)].copy(), 3
    T.get_uv_map = g


def same(ctx, uvs, want, par, label):
    ctx.check(set(uvs) == set(want) | set(par), label + ': keys')
    for k in want:
        ctx.check(uvs[k].shape == (N, N), label + ': shape')
        ctx.close(uvs[k], want[k], label + ': map of its redshift', tol=1e-9)
    for k in par:
        ctx.check(uvs[k] == par[k], label + ': parameters')


ALL = [dict(n=3, zl='list'), dict(n=4, zl='array', free=2)]


@case(quick=ALL, thorough=[dict(n=4, zl='list'), dict(n=5, zl='array')])
def interrupted(ctx, n, zl, free=9):
    """Any subset cached, any crash point, any number of workers and checkpoint
    interval: finished blocks survive, nothing cached is lost or computed again,
    and the repeated run returns what an undisturbed run returns."""
    T = ctx.mod('radio_telescope_noise')
    zs = ZS[:n]
    key = {z: '%.3f' % z for z in zs}
    jobs = ctx.int('jobs', 1, 6)
    cp = ctx.int('checkpoint', -1, n)
    if cp < 0:
        cp = None
    first = ctx.array('m', (n, N, N), 0, 50)
    again = ctx.array('w', (n, N, N), 0, 50)
    old = ctx.array('o', (n, N, N), 0, 50)
    M = {z: first[i] for i, z in enumerate(zs)}
    W = {z: again[i] for i, z in enumerate(zs)}
    had = [i for i in range(n) if i < free and ctx.bool('cached%d' % i)]
    k = ctx.pick('crash', [None] + list(range(n)))
    par = {'ncells': N, 'boxsize': 100.0, 'total_int_time': 6.0, 'int_time': 10.0, 'declination': -30.0, 'subarray_type': 'AA4', 'N_ant': 3}
    path = os.path.join(ctx.tmp(), 'uv.pkl')
    arg = zs if zl == 'list' else np.array(zs)

    def run():
        return T.get_uv_map_lightcone(N, arg, subarray_type='AA4', boxsize=100.0, save_uvmap=path, n_jobs=jobs, verbose=False, checkpoint=cp)
    if had:
        setup(ctx, T, {z: old[i] for i, z in enumerate(zs)})
        T.get_uv_map_lightcone(N, np.array([zs[i] for i in had]), subarray_type='AA4', boxsize=100.0, save_uvmap=path, n_jobs=1, verbose=False)
    todo = [i for i in range(n) if i not in had]
    dead = k is not None and k in todo
    setup(ctx, T, M, crash=zs[k] if dead else None)
    want = {key[z]: (old[i] if i in had else first[i]) for i, z in enumerate(zs)}
    if not dead:
        uvs = run()
        same(ctx, uvs, want, par, 'result')
        same(ctx, T.read_dictionary_data(path), want, par, 'file')
        return
    try:
        run()
        ctx.check(False, 'the interruption is reported')
    except Crash:
        pass
    p = todo.index(k)
    sure = [i for q, i in enumerate(todo) if cp is not None and cp > 0 and q < p // cp * cp]
    kept = T.read_dictionary_data(path) if os.path.exists(path) else {}
    for i in sure:
        ctx.check(key[zs[i]] in kept, 'finished checkpoints are in the file')
    for i in had:
        ctx.check(key[zs[i]] in kept, 'an interrupted run keeps the cached maps')
    for i, z in enumerate(zs):
        if key[z] in kept:
            ctx.close(kept[key[z]], want[key[z]], 'file after the interruption', tol=1e-9)
    setup(ctx, T, W)
    for i, z in enumerate(zs):
        if key[z] not in kept:
            want[key[z]] = again[i]
    uvs = run()
    same(ctx, uvs, want, par, 'repeated run')
    same(ctx, T.read_dictionary_data(path), want, par, 'file of the repeated run')


@case(quick=[dict(name=s) for s in ('AA4', 'AA*')])
def parameters(ctx, name):
    """A cache made with other parameters is refused; with the same it is used."""
    T = ctx.mod('radio_telescope_noise')
    zs = np.array(ZS[:2])
    m, w = ctx.array('m', (2, N, N), 0, 50), ctx.array('w', (2, N, N), 0, 50)
    setup(ctx, T, {z: m[i] for i, z in enumerate(ZS[:2])})
    path = os.path.join(ctx.tmp(), 'uv.pkl')
    p = {q: [ctx.real(q + str(r), *lim) for r in range(2)] for q, lim in
         (('boxsize', (10, 500)), ('total_int_time', (1, 10)), ('int_time', (1, 20)), ('declination', (-60, 30)))}
    p['ncells'] = [2, 2 + ctx.int('n', 0, 1)]
    p['subarray_type'] = [name, ctx.pick('subarray', [name, 'AA2'])]

    def run(r):
        k = {q: p[q][r] for q in p if q != 'ncells'}
        return T.get_uv_map_lightcone(p['ncells'][r], zs, save_uvmap=path, n_jobs=1, verbose=False, **k)
    run(0)
    setup(ctx, T, {z: w[i] for i, z in enumerate(ZS[:2])})
    differ = False
    for q in p:
        differ = ctx.np.logical_or(differ, p[q][0] != p[q][1])
    try:
        uvs = run(1)
        ok = True
    except ValueError:
        ok = False
    if ok:
        ctx.check(ctx.np.logical_not(differ), 'a cache of other parameters is refused')
        for i, z in enumerate(ZS[:2]):
            ctx.close(uvs['%.3f' % z], m[i], 'a matching cache is used', tol=1e-9)
    else:
        ctx.check(differ, 'a matching cache is accepted')
    kept = T.read_dictionary_data(path)
    for i, z in enumerate(ZS[:2]):
        ctx.close(kept['%.3f' % z], m[i], 'the cache keeps its maps', tol=1e-9)


@case(quick=[dict()])
def passed_on(ctx):
    """Every map is made for its own redshift with the parameters of the call."""
    T = ctx.mod('radio_telescope_noise')
    zs = ZS[:3]
    m = ctx.array('m', (3, N, N), 0, 50)
    see = []
    setup(ctx, T, {z: m[i] for i, z in enumerate(zs)}, see=see)
    v = {q: ctx.real(q, *lim) for q, lim in (('boxsize', (10, 500)), ('total_int_time', (1, 10)), ('int_time', (1, 20)), ('declination', (-60, 30)))}
    uvs = T.get_uv_map_lightcone(N, zs, n_jobs=1, verbose=False, **v)
    lc, na = T.make_uv_map_lightcone(N, np.array(zs), verbose=False, **v)
    ctx.check(len(see) == 6, 'one map per redshift')
    ctx.check(lc.shape == (N, N, 3) and na == 3, 'shape of the cube')
    for i, z in enumerate(zs):
        ctx.close(uvs['%.3f' % z], m[i], 'map of its redshift', tol=1e-9)
        ctx.close(lc[:, :, i], m[i], 'slice of its redshift', tol=1e-9)
    for c in see:
        for q in v:
            ctx.close(c[3][q], v[q], 'parameter %s' % q, tol=1e-9)
        ctx.check(c[0] == N, 'cells')


@case(quick=[dict(n=3), dict(n=2)])
def positions(ctx, n):
    """The layout may be an array of antenna positions: the map is made for them, and the cache belongs to them."""
    T = ctx.mod('radio_telescope_noise')
    zs = ZS[:2]
    m, w = ctx.array('m', (2, N, N), 0, 50), ctx.array('w', (2, N, N), 0, 50)
    a, b = ctx.array('a', (n, 3), -100, 100), ctx.array('b', (n, 3), -100, 100)
    path = os.path.join(ctx.tmp(), 'uv.pkl')
    see = []

    def maps(v):
        def g(ncells, z, *p, **k):
            see.append(k['subarray_type'])
            return v[ZS.index(float(z))].copy(), n
        T.get_uv_map = g

    def run(lay):
        return T.get_uv_map_lightcone(N, zs, subarray_type=lay, boxsize=100.0, save_uvmap=path, n_jobs=1, verbose=False)
    maps(m)
    first = run(a)
    ctx.check(len(see) == 2 and first['N_ant'] == n, 'one map per redshift')
    for s in see:
        ctx.close(s, a, 'made for the positions given', tol=1e-9)
    maps(w)
    again = run(a)
    for i, z in enumerate(zs):
        ctx.close(again['%.3f' % z], m[i], 'a matching cache is used', tol=1e-9)
    other = False
    for i in np.ndindex(n, 3):
        other = (a[i] != b[i]) | other
    try:
        uvs = run(b)
        ok = True
    except ValueError:
        ok = False
    if ok:
        ctx.check(ctx.np.logical_not(other), 'a cache of other positions is refused')
    else:
        ctx.check(other, 'a matching cache is accepted')
