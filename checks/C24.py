"""UV maps with gains and antenna stamps."""
import itertools
import numpy as np
from symex.harness import case

STUBS = ['sin and cos of the listed declination and hour angles are numbers', 'joblib: workers run one after another', 'comoving distance and frequency of the redshift listed are those of the package']
OUTSIDE = 'more antennas, integrations or cells than listed; samples within 1e-3 of the edge of a uv cell; complex gain response of images'

Z, BOX, DEC = 8.0, 200.0, -30.0


def setup(ctx, na, n, steps, fixed=()):
    """Symbolic antenna positions; u, v of every pair and integration in units of uv cells."""
    from astropy import units as u
    cm = ctx.mod('cosmo')
    D, nu = float(ctx.concrete(cm.z_to_cdist(Z))), float(ctx.concrete(cm.z_to_nu(Z)))
    m = D / BOX * 299.79 / nu                            # metres per uv cell
    rest = np.array([[0.3, -0.2, 0.1], [-0.9, 1.23, 0.41], [1.6, 0.63, -0.3]])[:na]
    x = ctx.array('x', (na, 3), -0.6 * n, 0.6 * n, free=[3 * i + k for i in range(na) if i not in fixed for k in range(3)], rest=rest)
    T, dt = steps * 0.5, 1800.0
    sd, cd = np.sin(np.deg2rad(DEC)), np.cos(np.deg2rad(DEC))
    uv = []
    for s in range(1, steps + 1):
        h = (-T / 2 + s * dt / 3600) * np.pi / 12
        row = []
        for i, j in itertools.combinations(range(na), 2):
            b = x[i] - x[j]
            p, q = np.sin(h) * b[0] + np.cos(h) * b[1], -sd * np.cos(h) * b[0] + sd * np.sin(h) * b[1] + cd * b[2]
            for t in (p, q):
                for e in range(-2 * n, 2 * n):
                    ctx.assume(ctx.np.logical_or(t > e + 0.5 + 1e-3, t < e + 0.5 - 1e-3))
            row.append((p, q))
        uv.append(row)
    return x * m * u.m, uv, dict(total_int_time=T, int_time=dt, boxsize=BOX, declination=DEC, verbose=False)


def cell(p, q, n):
    """Signed cell of a sample, or None outside the grid [-n/2, n/2)."""
    out = []
    for t in (p, q):
        for k in range(-(n // 2), (n + 1) // 2):
            if t > k - 0.5 and t < k + 0.5:
                out.append(k)
                break
        else:
            return None
    return tuple(out)


@case(quick=[dict(na=2, n=2, steps=2), dict(na=3, n=2, steps=1, fixed=(1, 2)), dict(na=3, n=3, steps=4, fixed=(0, 1, 2)), dict(na=2, n=4, steps=1)],
      thorough=[dict(na=3, n=2, steps=2, fixed=(2,)), dict(na=2, n=3, steps=2), dict(na=2, n=2, steps=3), dict(na=3, n=3, steps=1, fixed=(1,))])
def stamps(ctx, na, n, steps, fixed=()):
    """Every pair of antennas is recorded once per integration, in the cell of its rotated baseline, for any number of workers."""
    K = ctx.mod('radio_telescope_calibration')
    pos, uv, kw = setup(ctx, na, n, steps, fixed)
    jobs = ctx.pick('jobs', [-1, 1, 2, 3] if steps > 1 else [1, 2])
    pairs = list(itertools.combinations(range(na), 2))
    at = [[cell(p, q, n) for p, q in row] for row in uv]
    got, N = K.get_full_uv_map_with_antenna_stamp(n, Z, pos, n_jobs=jobs, **kw)
    ctx.check(N == na, 'number of antennas')
    ctx.check(got.shape == (steps, n, n), 'shape')
    hits = np.zeros((n, n), int)
    for t in range(steps):
        for i, j in np.ndindex(n, n):
            want = sorted((a + 1, b + 1) for (a, b), c in zip(pairs, at[t]) if c is not None and (c[0] % n, c[1] % n) == (i, j))
            hits[i, j] += len(want)
            ctx.check(sorted((int(a), int(b)) for a, b in got[t, i, j]) == want, 'pairs in a cell')
    ctx.equal_int(K.full_uv_map_with_antenna_stamp_to_uv_map(got, verbose=False), hits, 'hit counts')
    lag, ant = K.get_full_uv_lagrangian_with_antenna_stamp(n, Z, pos, n_jobs=jobs, **kw)
    ctx.check(lag.shape == (steps, len(pairs), 2), 'shape of the positions')
    ctx.equal_int(ant, np.array(pairs) + 1, 'antenna pairs')
    for t in range(steps):
        for p in range(len(pairs)):
            c = at[t][p]
            if c is None:
                ctx.check(ctx.np.all(ctx.np.isnan(lag[t, p])), 'no position outside the grid')
            else:
                ctx.close(lag[t, p], np.array(c, float), 'position of the pair', tol=1e-9)


MODELS = ['array', 'real', 'phase', 'random_uniform', 'random_gaussian']


@case(quick=[dict(na=3, n=3, steps=3, model='real', fixed=(0, 1, 2)), dict(na=3, n=2, steps=4, model='real', fixed=(0, 1, 2)), dict(na=2, n=2, steps=2, model='real', fixed=(1,)), dict(na=2, n=3, steps=1, model='phase', mirror=True), dict(na=3, n=2, steps=1, model='array', fixed=(1, 2)),
             dict(na=3, n=2, steps=2, model='random_uniform', fixed=(0, 1, 2)), dict(na=3, n=2, steps=2, model='random_gaussian', mirror=True, fixed=(0, 1, 2))],
      thorough=[dict(na=3, n=2, steps=2, model='real', fixed=(2,)), dict(na=2, n=4, steps=3, model='real'), dict(na=2, n=3, steps=2, model='array', mirror=True)])
def gains(ctx, na, n, steps, model, mirror=False, fixed=()):
    """Hits and sums of the four gain products per uv cell; gains are drawn
    again whenever one of the time scales has passed, and not before."""
    K = ctx.mod('radio_telescope_calibration')
    N = ctx.np
    pos, uv, kw = setup(ctx, na, n, steps, fixed)
    scale = ctx.pick('timescale', [[1800], [3600], [5400], [3600, 5400], [100000]] if steps > 1 else [[1800]])
    r, m = ctx.array('r', (steps, na), -2, 2), ctx.array('i', (steps, na), -2, 2)
    k = [0, 0]

    def draw(a, w):
        def f(*x, **y):
            k[w] += 1
            return a[k[w] - 1].copy()
        return f
    if model == 'array':
        g = N.stack([r[0], m[0]], axis=-1)
    elif model in ('real', 'phase'):
        g = {('real' if model == 'real' else 'amplitude'): draw(r, 0), ('imag' if model == 'real' else 'phase'): draw(m, 1)}
    else:
        g = {'name': model, 'min': 0.5, 'max': 1.1, 'mu': 1.0, 'std': 0.2}
        one = (lambda: N.random.uniform(0.5, 1.1, na)) if model == 'random_uniform' else (lambda: N.random.normal(1.0, 0.2, na))
        ctx.random()
        z = [(one(), one()) for _ in range(steps)]
        ctx.random()
        r, m = N.stack([q[0] for q in z]), N.stack([q[1] for q in z])
    got, nant = K.get_uv_map_with_gains(n, Z, gain_model=g, gain_timescale=scale, subarray_type=pos, include_mirror_baselines=mirror, **kw)
    ctx.check(nant == na, 'number of antennas')
    ctx.check(got.shape == (n, n, 5), 'shape')
    want = N.zeros((n, n, 5)) + 0 * r[0, 0]
    d = -1
    for t in range(steps):
        if any(t * 1800 % s == 0 for s in scale):
            d += 1
        e = 0 if model == 'array' else d
        for (a, b), (p, q) in zip(itertools.combinations(range(na), 2), uv[t]):
            c = cell(p, q, n)
            if c is None:
                continue
            for sg in (1, -1) if mirror else (1,):
                i, j = sg * c[0] % n, sg * c[1] % n
                for w, v in enumerate([1.0, r[e, a] * r[e, b], m[e, a] * m[e, b], r[e, a] * m[e, b], m[e, a] * r[e, b]]):
                    want[i, j, w] = want[i, j, w] + v
    if model in ('real', 'phase'):
        ctx.check(k == [d + 1, d + 1], 'gains are drawn again when a time scale has passed')
    ctx.close(got[:, :, 0], want[:, :, 0], 'hits', tol=1e-9)
    for w in range(1, 5):
        ctx.close(got[:, :, w], want[:, :, w], 'gain products', tol=1e-6)
    ctx.close(K.gain_uv_map_to_uv_map(got), want[:, :, 0], 'uv map', tol=1e-9)


@case(quick=[dict(n=3), dict(n=4)])
def image(ctx, n):
    """With real gain products the sampled modes are scaled by the root of their mean product, the others are removed."""
    K = ctx.mod('radio_telescope_calibration')
    N = ctx.np
    img = ctx.array('a', (n, n), -10, 10)
    g = np.zeros((n, n, 5))
    g[:, :, 0] = (7 * np.arange(n * n).reshape(n, n) ** 2 + 3) % 5
    gain = np.round(1 + 0.5 * np.sin(np.arange(n * n)), 2).reshape(n, n)
    g[:, :, 1] = gain ** 2 * g[:, :, 0]
    before = N.array(img)
    with np.errstate(all='ignore'):
        got = K.apply_uv_with_gains_response_on_image(img, N.array(g), verbose=False)
    want = N.fft.ifft2(N.fft.fft2(img) * np.where(g[:, :, 0] > 0, gain, 0.0)).real
    ctx.close(got, want, 'sampled modes with their gain', tol=1e-6)
    ctx.close(img, before, 'the image is not modified', tol=0)
