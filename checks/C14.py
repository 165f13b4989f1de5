"""Size distributions: mean free path, spherical average, granulometry."""
import itertools
import numpy as np
from symex.harness import case

STUBS = ['scipy.interpolate.RegularGridInterpolator: weights of the real function', 'scipy.signal.fftconvolve: the exact convolution', 'numpy.random: every draw is an input; ray angles range over the listed degrees']
OUTSIDE = 'grids and ray numbers larger than listed; ray angles other than the listed ones; interpolated or averaged values within 1e-7 of the threshold'


def grid(ctx, name, shape):
    return ctx.array(name, shape, -1, 2)


def sample(ctx, ind, p):
    """Multilinear interpolation of an indicator field, 0 outside the grid."""
    lo = [int(np.floor(v)) for v in p]
    fr = [v - l for v, l in zip(p, lo)]
    if any(v < 0 or v > n - 1 for v, n in zip(p, ind.shape)):
        return 0.0
    tot = 0.0
    for o in itertools.product((0, 1), repeat=len(p)):
        w = float(np.prod([f if b else 1 - f for f, b in zip(fr, o)]))
        if w > 0:
            tot = tot + ind[tuple(l + b for l, b in zip(lo, o))] * w
    return tot


def walk(ctx, ind, start, step, n):
    """Number of the step at which a ray leaves the region (n: it did not)."""
    p = [float(v) for v in start]
    for r in range(n):
        p = [a + b for a, b in zip(p, step)]
        v = sample(ctx, ind, p)
        if not bool(v > 0.5):
            return r
    return n


ANG3 = {(0, 360): [0, 90, 110, 250]}


@case(quick=[dict(shape=(3, 3), rays=2, point=(1, 1)), dict(shape=(2, 4), rays=1, point=(0, 2)), dict(shape=(3, 2, 2), rays=1, point=(1, 0, 1)), dict(shape=(2, 2, 3), rays=1, point='array')],
      thorough=[dict(shape=(3, 3, 3), rays=1, point=(1, 1, 1)), dict(shape=(3, 3), rays=3, point=(0, 1)), dict(shape=(3, 2, 2), rays=2, point=(0, 0, 1))])
def rays_from_a_point(ctx, shape, rays, point):
    """Every ray from a cell of the region is counted at its first step outside."""
    ctx.randint_domain = {(0, 360): [0, 70, 90, 200, 315] if len(shape) == 2 else [0, 90, 110]}
    x = grid(ctx, 'x', shape)
    x0 = x.copy()
    pt = np.array([1, 0, 1]) if isinstance(point, str) else point
    M = ctx.mod('mfp_np')
    out = (M.mfp2d if len(shape) == 2 else M.mfp3d)(x, 0.5, iterations=rays, verbose=False, point=pt)
    ctx.close(x, x0, 'input not modified')
    inside = bool(x[tuple(int(i) for i in pt)] >= 0.5)
    ctx.check((out is None) == (not inside), 'a starting point outside the region is refused')
    if out is None:
        return
    num, size = out
    n = num.shape[0]
    ctx.check(n >= max(shape), 'rays are followed for at least the length of the box')
    ind = ctx.np.where(x >= 0.5, 1.0, 0.0)
    ctx.random()
    th = np.radians([float(v) for v in ctx_angles(ctx, rays)])
    if len(shape) == 2:
        d = [(np.sin(t), np.cos(t)) for t in th]
    else:
        ph = np.radians([float(v) for v in ctx_angles(ctx, rays)])
        d = [(np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)) for t, p in zip(th, ph)]
    ref = np.zeros(n + 1)
    for s in d:
        ref[walk(ctx, ind, pt, s, n)] += 1
    ctx.close(num, ctx.const(ref[:n]), 'number of rays per length', tol=1e-9)
    ctx.close(size, ctx.const(np.arange(n)), 'lengths', tol=1e-9)


def ctx_angles(ctx, rays):
    return ctx.np.random.randint(0, 360, size=rays)


@case(quick=[dict(shape=(2, 2)), dict(shape=(2, 1, 2)), dict(shape=(1, 2), rays=2)], thorough=[dict(shape=(2, 3)), dict(shape=(3, 1, 2))])
def mfp_distribution(ctx, shape, rays=1):
    """Random starts lie in the region; physical units; limits swap with the sign."""
    B, M = ctx.mod('bubble_stats'), ctx.mod('mfp_np')
    ctx.randint_domain = {(0, 360): [0, 135] if len(shape) == 2 else [110]}
    x = grid(ctx, 'x', shape)
    thr = ctx.real('thr', 0, 3)
    m = [bool(x[p] >= thr) for p in np.ndindex(*shape)]
    f = M.mfp2d if len(shape) == 2 else M.mfp3d
    if any(m):
        num, size = f(x, thr, iterations=rays, verbose=False)
    ctx.random()
    r, p = B.mfp(x, xth=thr, boxsize=10.0, iterations=rays, verbose=False)
    ctx.random()
    r2, p2 = B.mfp(-1.0 * x, xth=-1.0 * thr, boxsize=20.0, iterations=rays, verbose=False, upper_lim=True)
    ctx.close(r2, 2.0 * r, 'sizes scale with the box', tol=1e-9)
    ctx.close(p2, p, 'upper limit of the negative field', tol=1e-9)
    n = r.shape[0]
    ctx.close(r, ctx.const(np.arange(n) * 10.0 / shape[0]), 'sizes in physical units', tol=1e-9)
    if any(m):
        ctx.close(p, ctx.const(np.arange(n) / float(rays)) * num, 'r times the fraction of rays of that length', tol=1e-9)
        ctx.le(num.sum(), float(rays), 'every ray ends at most once')
    else:
        ctx.close(p, ctx.np.zeros(n), 'no region, no rays', tol=1e-12)


@case(quick=[dict(shape=(2, 3)), dict(shape=(3, 1, 2))], thorough=[dict(shape=(3, 3)), dict(shape=(2, 2, 2))])
def start_in_region(ctx, shape):
    """The random starting cells are cells of the region, any of them."""
    M = ctx.mod('mfp_np')
    ctx.randint_domain = {(0, 360): [45]}
    x = grid(ctx, 'x', shape)
    m = np.array([bool(x[p] >= 0.5) for p in np.ndindex(*shape)]).reshape(shape)
    if not m.any():
        ctx.check(True, 'no region')
        return
    seen = []
    real = M.RegularGridInterpolator

    class Spy:
        def __init__(self, pts, vals, *a, **k):
            self.f = real(pts, vals, *a, **k)

        def __call__(self, pts):
            seen.append(pts)
            return self.f(pts)
    M.RegularGridInterpolator = Spy
    try:
        (M.mfp2d if len(shape) == 2 else M.mfp3d)(x, 0.5, iterations=1, verbose=False)
    finally:
        M.RegularGridInterpolator = real
    s = np.sin(np.radians(45))
    d = (s, s) if len(shape) == 2 else (s * s, s * s, s)
    p0 = [float(ctx.concrete(v)) - w for v, w in zip(list(seen[0].reshape(-1)), d)]
    q = tuple(int(round(v)) for v in p0)
    ctx.check(max(abs(a - b) for a, b in zip(p0, q)) < 1e-9 and all(0 <= i < n for i, n in zip(q, shape)) and bool(m[q]), 'rays start on cells of the region')


@case(quick=[dict(N=5, nscales=2), dict(N=4, nscales=2), dict(N=6, nscales=3, direct=True)], thorough=[dict(N=6, nscales=4), dict(N=7, nscales=3)], weight=2)
def spherical_average(ctx, N, nscales, direct=False):
    """Each cell is assigned the largest radius whose ball average reaches the
    threshold; the distribution is the share of assigned cells per radius."""
    from skimage import morphology
    B = ctx.mod('bubble_stats')
    free = [0, 1, N * N, N * N * N - 1, N * N * N - N]
    x = ctx.array('x', (N, N, N), 0, 1, free=free, rest=(np.arange(N ** 3).reshape(N, N, N) * 7 % 5 < 3).astype(float))
    x0 = x.copy()
    thr = 0.3037
    rs, ni = B.spa(x, xth=thr, boxsize=3.0 * N, nscales=nscales, verbose=False, use_fftconvolve=not direct)
    R = np.exp(np.linspace(np.log(2.), np.log(N / 2.), nscales))
    ctx.close(rs, ctx.const(R * 3.0), 'radii in physical units', tol=1e-9)
    lev = ctx.np.zeros((N, N, N), dtype=int)
    for i, ra in enumerate(R):
        k = morphology.ball(ra)
        av = convolve_same(ctx, x, k / k.sum())
        ctx.assume(ctx.np.logical_or(av > thr + 1e-7, av < thr - 1e-7))
        lev = ctx.np.where(av >= thr, i + 1, lev)
    if len(set(R)) < nscales:      # equal radii (smallest boxes)
        return
    tot = (lev > 0).sum()
    for i in range(nscales):
        ctx.close(ni[i] * tot, ctx.np.where(tot > 0, (lev == i + 1).sum(), 0), 'share of the cells assigned to each radius', tol=1e-6)
    ctx.close(x, x0, 'input not modified')


def convolve_same(ctx, x, k):
    """Zero-padded convolution by definition, same size."""
    h = [(n - 1) // 2 for n in k.shape]     # even kernels: the cell below the middle
    N = x.shape
    out = 0.0
    for o in np.argwhere(k > 0):
        d = [int(i) - c for i, c in zip(o, h)]
        src = tuple(slice(max(0, -s), min(n, n - s)) for s, n in zip(d, N))
        dst = tuple(slice(max(0, s), min(n, n + s)) for s, n in zip(d, N))
        t = ctx.np.zeros(N)
        t[dst] = x[src]
        out = out + t * float(k[tuple(o)])
    return out


def opened(ctx, m, offs):
    """Cells covered by a translate of the structuring element inside the region."""
    n = m.shape
    out = None
    for c in np.ndindex(*n):
        pos = [tuple(a + b for a, b in zip(c, o)) for o in offs]
        if not all(all(0 <= i < s for i, s in zip(p, n)) for p in pos):
            continue
        e = m[pos[0]]
        for p in pos[1:]:
            e = ctx.np.logical_and(e, m[p])
        t = {p: e for p in pos}
        out = t if out is None else {p: (ctx.np.logical_or(out[p], t[p]) if p in out and p in t else (out[p] if p in out else t[p])) for p in set(out) | set(t)}
    tot = 0
    for p in (out or {}):
        tot = tot + ctx.np.where(out[p], 1, 0)
    return tot


def ball(n, dim):
    return [o for o in itertools.product(range(-n, n + 1), repeat=dim) if sum(i * i for i in o) <= n * n]


@case(quick=[dict(shape=(4, 4), free=(0, 4, 6, 9, 14)), dict(shape=(4, 3, 3), free=(4, 10, 13, 16, 22)), dict(shape=(6, 5), free=(7, 8, 12, 16, 22, 27)), dict(shape=(4, 3), free=(0, 4, 5, 7), rest=0)],
      thorough=[dict(shape=(7, 3), free=(1, 4, 7, 9, 13, 16, 19)), dict(shape=(4, 4, 4), free=(5, 21, 26, 38, 42, 63)), dict(shape=(6, 6, 5), free=(0, 52, 77, 82, 107))])
def granulometry(ctx, shape, free, rest=1):
    """Opening with balls of growing radius: area covered, pattern spectrum."""
    B = ctx.mod('bubble_stats')
    n = int(np.prod(shape))
    x = ctx.array('x', shape, -1, 2, free=list(free), rest=np.array([0.2 if not rest or i % 11 == 10 else 0.9 for i in range(n)]).reshape(shape))
    m = x > 0.5
    Rs, dlnR, dR = B.granulometry_bsd(x, xth=0.5, boxsize=10.0, verbose=False)
    n = max(shape) // 2
    area = [opened(ctx, m, ball(r, len(shape))) for r in range(n)]
    ctx.close(Rs, ctx.const(np.arange(n) * 10.0 / shape[0]), 'radii', tol=1e-9)
    ar, ps, pix = B._granulometry(m, verbose=False)
    ctx.equal_int(ar, ctx.np.array(area), 'area covered by balls of each radius')
    a0 = max(int(area[0]), 1)
    for r in range(n - 1):
        ctx.close(dR[r] * a0, area[r] - area[r + 1], 'share of the region removed by the next opening', tol=1e-6)
    ctx.close(dR[n - 1], 0.0, 'last radius', tol=1e-9)
    ctx.close(dlnR, dR * ctx.const(np.arange(n)), 'R dF/dR', tol=1e-9)


@case(quick=[dict(shape=(3, 3), kind='disk'), dict(shape=(3, 2, 3), kind='ball'), dict(shape=(3, 4), kind='odd')], thorough=[dict(shape=(4, 4), kind='disk'), dict(shape=(3, 3, 3), kind='ball')])
def opening(ctx, shape, kind):
    """Erosion, dilation and opening by definition for any binary image."""
    M = ctx.mod('morph')
    offs = ball(1, len(shape)) if kind != 'odd' else [(0, 0), (1, 0), (1, 1)]
    B = np.zeros((3,) * len(shape))
    for o in offs:
        B[tuple(i + 1 for i in o)] = 1
    a = ctx.array('a', shape, 0, 1, kind='int')
    er, di = M.binary_erosion(a, B), M.binary_dilation(a, B)
    inside = lambda p: all(0 <= i < n for i, n in zip(p, shape))
    for p in np.ndindex(*shape):
        q = [tuple(i - j for i, j in zip(p, o)) for o in offs]
        s = sum(a[r] for r in q if inside(r))
        ctx.check((er[p] == (s == len(offs))), 'erosion: all cells of the element are set')
        ctx.check((di[p] == (s > 0)), 'dilation: some cell of the element is set')
    op = M.binary_opening(a, structure=B)
    if kind != 'odd':
        ctx.check(ctx.np.logical_or(ctx.np.logical_not(op), a > 0), 'opening stays inside the region')
        ctx.equal_int(ctx.np.where(op, 1, 0).sum(), opened(ctx, a > 0, offs), 'opening is the union of the translates inside the region')


@case(quick=[dict(N=4), dict(N=5)], thorough=[dict(N=6)])
def upper_limits(ctx, N):
    """An upper limit on a field is a lower limit on its negative, in every method;
    radii may also be spaced evenly."""
    B = ctx.mod('bubble_stats')
    x = ctx.array('x', (N, N, N), 0, 1, free=[0, 1, N * N + 2, N ** 3 - 1], rest=(np.arange(N ** 3).reshape(N, N, N) * 7 % 5 < 2) * 0.9)
    x0 = x.copy()
    thr = 0.4037
    kw = dict(boxsize=30.0, verbose=False)
    low = x < thr
    r, p = B.spa(x, xth=thr, nscales=3, upper_lim=True, binning='linear', **kw)
    R = np.linspace(1, N / 2., 3)
    ctx.close(r, ctx.const(R * 30.0 / N), 'evenly spaced radii', tol=1e-9)
    from skimage import morphology
    lev = ctx.np.zeros((N, N, N), dtype=int)
    for i, ra in enumerate(R):
        k = morphology.ball(ra)
        av = convolve_same(ctx, x, k / k.sum())
        ctx.assume(ctx.np.logical_or(av > thr + 1e-7, av < thr - 1e-7))
        lev = ctx.np.where(av <= thr, i + 1, lev)
    tot = (lev > 0).sum()
    for i in range(3):
        ctx.close(p[i] * tot, ctx.np.where(tot > 0, (lev == i + 1).sum(), 0), 'balls whose average stays below the limit', tol=1e-6)
    g = B.granulometry_bsd(x, xth=thr, upper_lim=True, **kw)
    h = B.granulometry_bsd(ctx.np.where(low, 1.0, 0.0), xth=0.5, **kw)
    for a, b, what in zip(g, h, ('radii', 'R dF/dR', 'dF/dR')):
        ctx.close(a, b, 'openings of the cells below the limit: ' + what, tol=1e-9)
    ctx.close(x, x0, 'input not modified')
