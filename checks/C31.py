"""Two-point correlation functions."""
import numpy as np
from symex.harness import case

STUBS = ['cKDTree: radius and order decided by the solver']
OUTSIDE = 'the truncation error of the transform; pair separations within 1e-6 of a bin edge; more than 3 points per catalogue'


def kernel(k, r):
    return np.sin(k * r) / (k * r)


def transform(ctx, ps, ks, rs):
    """4 pi int k^2 P sin(kr)/(kr) dk by the trapezoidal rule."""
    out = []
    for r in rs:
        f = [ps[i] * (ks[i] ** 2 * kernel(ks[i], r)) for i in range(len(ks))]
        out.append(4 * np.pi * sum((f[i] + f[i + 1]) * ((ks[i + 1] - ks[i]) / 2) for i in range(len(ks) - 1)))
    return out


@case(quick=[dict(n=4, nan=None), dict(n=6, nan=2), dict(n=5, nan=0)], thorough=[dict(n=20, nan=19), dict(n=30, nan=7)])
def from_spectrum(ctx, n, nan):
    """The correlation function is the Fourier-Bessel transform of the spectrum, without its empty bins."""
    C = ctx.mod('corr_function')
    N = ctx.np
    ks = 0.05 * 1.3 ** np.arange(n)
    ps = ctx.array('p', (n,), -100, 100)
    keep = [i for i in range(n) if i != nan]
    if nan is not None:
        ps[nan] = N.nan
    before = [ps[i] for i in keep]
    rs = np.array([1.0, 3.7, 11.0, 40.0])
    got, r = C.ps_to_corr(ps, ks, rbins=rs)
    ctx.check(len(got) == 4, 'one value per separation')
    want = transform(ctx, [ps[i] for i in keep], [float(ks[i]) for i in keep], rs)
    for i in range(4):
        ctx.close(got[i], want[i], 'transform', tol=1e-6)
        ctx.close(r[i], float(rs[i]), 'separation', tol=1e-12)
    for i in range(len(keep)):
        ctx.close(ps[keep[i]], before[i], 'spectrum not modified', tol=0)
    for binning in ('log', 'linear'):
        got, r = C.ps_to_corr(ps, ks, rbins=5, box_dims=100.0, n_grid=20, binning=binning)
        rr = np.logspace(1, np.log10(50), 5) if binning == 'log' else np.linspace(10, 50, 5)
        ctx.check(np.shape(r) == (5,), 'number of separations')
        ctx.close(N.array(r), rr, 'separations from two cells to half the box', tol=1e-6)
        ctx.close(N.array(got), N.array(transform(ctx, [ps[i] for i in keep], [float(ks[i]) for i in keep], rr)), 'transform', tol=1e-6)


@case(quick=[dict(shape=(3, 2, 2)), dict(shape=(2, 2, 4))], thorough=[dict(shape=(4, 4, 4)), dict(shape=(3, 3, 5))])
def of_field(ctx, shape):
    """Correlation of fields: the transform of their (cross) power spectrum; symmetric, the correlation with itself is the autocorrelation, scale and shift."""
    C, P, V = ctx.mod('corr_function'), ctx.mod('power_spectrum'), ctx.mod('conv')
    N = ctx.np
    V.LB = 60.0
    a, b = ctx.array('a', shape, -3, 3), ctx.array('b', shape, -3, 3)
    a0 = N.array(a)
    rs = np.array([5.0, 17.0, 31.0])
    for box in (60.0, (60.0, 50.0, 70.0), None):
        args = dict(rbins=rs, kbins=4, box_dims=box, binning='log', k_binning='linear')
        auto, r = C.correlation_function(a, **args)
        ps, ks = P.power_spectrum_1d(a, kbins=4, box_dims=box, binning='linear')
        ok = [i for i in range(len(ks)) if ctx.sym and not (isinstance(ps[i], float) and np.isnan(ps[i])) or not ctx.sym and np.isfinite(ps[i])]
        ctx.close(N.array(auto), N.array(transform(ctx, [ps[i] for i in ok], [float(ks[i]) for i in ok], rs)), 'transform of the power spectrum', tol=1e-3, rtol=1e-6)
        cross, _ = C.cross_correlation_function(a, b, **args)
        back, _ = C.cross_correlation_function(b, a, **args)
        same, _ = C.cross_correlation_function(a, a, **args)
        ps, ks = P.cross_power_spectrum_1d(a, b, kbins=4, box_dims=box, binning='linear')
        ctx.close(N.array(cross), N.array(transform(ctx, [ps[i] for i in ok], [float(ks[i]) for i in ok], rs)), 'transform of the cross spectrum', tol=1e-3, rtol=1e-6)
        ctx.close(N.array(cross), N.array(back), 'symmetric', tol=1e-3, rtol=1e-6)
        ctx.close(N.array(same), N.array(auto), 'with itself', tol=1e-3, rtol=1e-6)
        x, r = C.correlation_function(a, rbins=3, kbins=None, box_dims=box, binning='linear', k_binning='linear')
        ctx.check(np.shape(x) == (3,) and np.shape(r) == (3,), 'default bins')
        lo = 60.0 if box is None or box == 60.0 else 50.0
        y, q = C.cross_correlation_function(a, a, rbins=3, kbins=None, box_dims=box, binning='linear', k_binning='linear')
        ctx.close(N.array(y), N.array(x), 'default bins of the cross correlation', tol=1e-3, rtol=1e-6)
        ctx.close(N.array(q), N.array(r), 'separations of the cross correlation', tol=1e-9)
        ctx.close(N.array(r), np.linspace(2 * lo / shape[0], lo / 2, 3), 'separations', tol=1e-9)
    ctx.close(a, a0, 'field not modified', tol=0)


def pair_hist(ctx, P, Q, edges, same):
    N = ctx.np
    h = [0.0] * (len(edges) - 1)      # the catalogue counts
    for i in range(len(P)):
        for j in range(i + 1 if same else 0, len(Q)):
            d2 = ((P[i] - Q[j]) ** 2).sum()
            for e in edges:
                ctx.assume((d2 > (e + 1e-6) ** 2) | (d2 < (e - 1e-6) ** 2))
            for b in range(len(h)):
                h[b] = h[b] + N.where((d2 >= edges[b] ** 2) & (d2 < edges[b + 1] ** 2), 1.0, 0.0)
    return h


@case(quick=[dict(nd=2, nr=2, edges=(0.5, 6.0, 30.0), free=True), dict(nd=2, nr=3, edges=(0.1, 4.0, 9.0)), dict(nd=3, nr=2, edges=(0.1, 8.0, 40.0))],
      thorough=[dict(nd=2, nr=3, edges=(0.1, 4.0, 9.0), free=True), dict(nd=3, nr=2, edges=(0.1, 5.0, 12.0))])
def catalogues(ctx, nd, nr, edges, free=False):
    """Landy-Szalay: 1 + (DD - 2 DR) / RR with the normalised numbers of pairs in each bin of separation."""
    C = ctx.mod('corr_function')
    N = ctx.np
    data = N.zeros((nd, 3)) + ctx.real('x0', 0, 10) * 0
    rnd = N.zeros((nr, 3)) + (ctx.real('y0', 0, 1) * 0 if free else 0.0)
    for i in range(nd):
        data[i, 0], data[i, 1], data[i, 2] = ctx.real('x%d' % i, 0, 10), 2.0 * i, 1.0
    for i in range(nr):
        rnd[i, 0], rnd[i, 1], rnd[i, 2] = 3.0 * i + (ctx.real('y%d' % i, 0, 1) if i == 0 and free else 0.3), 5.0 - i, 2.0
    d0 = N.array(data)
    e = np.array(edges)
    DD, RR, DR = pair_hist(ctx, data, data, edges, True), pair_hist(ctx, rnd, rnd, edges, True), pair_hist(ctx, data, rnd, edges, False)
    nd2, nr2 = nd * (nd - 1) / 2, nr * (nr - 1) / 2
    runs = [dict(rbins=e)]
    for k in runs:
        xi, r = C.landy_szalay_estimator(data, rnd, box_dims=10.0, **k)
        ctx.close(N.array(r), (e[1:] + e[:-1]) / 2, 'bin centres', tol=1e-9)
        for b in range(len(edges) - 1):
            if RR[b] > 0.5:
                ctx.close(xi[b] * (RR[b] / nr2), DD[b] / nd2 - 2 * DR[b] / (nd * nr) + RR[b] / nr2, 'estimator', tol=1e-6)
    ctx.close(data, d0, 'positions not modified', tol=0)


@case(quick=[dict(binning='log'), dict(binning='linear')])
def default_bins(ctx, binning):
    """Automatic bins span rmin to rmax, and a mask stands for the positions of its cells in the box."""
    C, V = ctx.mod('corr_function'), ctx.mod('conv')
    N = ctx.np
    m = N.zeros((4, 4, 4)) + 0 * ctx.real('v', 0.1, 2)
    for i, p in enumerate([(0, 0, 0), (3, 0, 1), (1, 2, 3)]):
        m[p] = ctx.real('v%d' % i, 0.1, 2)
    pos = np.array([(0, 0, 0), (1, 2, 3), (3, 0, 1)]) * 3.0
    rnd = np.array([(1.0, 2, 3), (9, 8, 7), (5, 1, 10)])
    V.LB = 12.0
    for box in (12.0, None):
        for kw in (dict(), dict(rmin=2.0, rmax=9.0)):
            xi, r = C.landy_szalay_estimator(m, rnd, rbins=4, box_dims=box, binning=binning, **kw)
            lo, hi = (2.0, 9.0) if kw else (0.01, 12.0)
            e = np.logspace(np.log10(lo), np.log10(hi), 4) if binning == 'log' else np.linspace(lo, hi, 4)
            ctx.close(N.array(r), (e[1:] + e[:-1]) / 2, 'bin centres', tol=1e-9)
            h = lambda A, B, s: np.histogram([np.sqrt(((A[i] - B[j]) ** 2).sum()) for i in range(3) for j in range(i + 1 if s else 0, 3)], e)[0]
            DD, RR, DR = h(pos, pos, 1) / 3, h(rnd, rnd, 1) / 3, h(pos, rnd, 0) / 9
            for b in range(3):
                if RR[b]:
                    ctx.close(xi[b], (DD[b] - 2 * DR[b] + RR[b]) / RR[b], 'estimator', tol=1e-9)
