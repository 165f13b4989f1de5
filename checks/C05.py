"""Binned power spectra: spherical, cylindrical, angular, multipoles."""
import numpy as np
from symex.harness import case
import spectra as S

OUTSIDE = 'grids larger than listed; bin edges that coincide with a mode wavenumber (floating-point ties) other than the first and last edge'
STUBS = ['exact DFT by definition; numpy.histogram / binned_statistic_2d modelled by half-open bins with an inclusive last edge']


def isnan(x):
    return isinstance(x, float) and x != x


def compare(ctx, got, n, vals, sel, label, tol=1e-5, edge=None):
    """got/n against the mean of vals over the index lists sel."""
    got, n = got.reshape(-1), n.reshape(-1)
    ctx.check(len(got) == len(sel), label + ': number of bins')
    for i, idx in enumerate(sel):
        opts = [idx] if edge is None or edge[i] is None else [idx, edge[i]]
        ctx.check(any(float(ctx.concrete(n[i])) == len(o) for o in opts), label + ': mode count of bin %d' % i)
        idx = [o for o in opts if float(ctx.concrete(n[i])) == len(o)][0]
        if not idx:
            ctx.check(bool(np.isnan(ctx.concrete(got[i]))), label + ': empty bin %d is NaN' % i)
            continue
        ref = vals[idx[0]]
        for j in idx[1:]:
            ref = ref + vals[j]
        ctx.close(got[i], ref / float(len(idx)), label + ': bin %d is the mean over its modes' % i, tol=tol)


def bins_for(k, nb):
    """nb bins covering all modes, edges away from every wavenumber."""
    u = np.unique(np.round(k, 9))
    mids = (u[1:] + u[:-1]) / 2
    e = [-0.01] + list(mids[np.linspace(0, len(mids) - 1, nb + 1).astype(int)[1:-1]]) + [u[-1] * 1.1]
    return np.unique(np.array(e))


def select(k, edges):
    return [[j for j in range(len(k)) if edges[b] <= k[j] < edges[b + 1]] for b in range(len(edges) - 1)]


def vals_of(ctx, ps):
    return list(ps.reshape(-1)) if not ctx.sym else list(ps.reshape(-1))


@case(quick=[dict(shape=(4, 3, 2), dims=(3., 5., 2.), nb=4), dict(shape=(3, 3, 3), dims=7., nb=3), dict(shape=(4, 5), dims=(2., 3.), nb=4), dict(shape=(6,), dims=4., nb=3),
             dict(shape=(5,), dims=4., nb=2), dict(shape=(3, 4), dims=9., nb=3)],
      thorough=[dict(shape=(4, 4, 4), dims=(3., 4., 5.), nb=6), dict(shape=(5, 4, 3), dims=11., nb=5), dict(shape=(2, 5, 6), dims=(1., 2., 3.), nb=4), dict(shape=(6, 6), dims=(1., 2.), nb=6)])
def radial(ctx, shape, dims, nb):
    """radial_average of arbitrary data on the mode grid."""
    f = ctx.array('p', shape, -3, 3)
    k = np.sqrt((S.kvec(shape, dims) ** 2).sum(1))
    e = bins_for(k, nb)
    got, mid, n = ctx.t2c.radial_average(f, box_dims=dims, kbins=ctx.const(e))
    ctx.check(np.allclose(ctx.concrete(mid), (e[1:] + e[:-1]) / 2), 'bin centres')
    ctx.check(float(np.sum(ctx.concrete(n))) == np.prod(shape), 'every mode counted exactly once')
    compare(ctx, got, n, list(f.reshape(-1)), select(k, e), 'radial')


@case(quick=[dict(shape=(2, 3, 2), dims=(3., 5., 2.), nb=3), dict(shape=(3, 4), dims=6., nb=3), dict(shape=(4,), dims=6., nb=3)],
      thorough=[dict(shape=(3, 3, 2), dims=8., nb=4), dict(shape=(4, 2, 2), dims=(1., 2., 3.), nb=4)])
def spherical(ctx, shape, dims, nb):
    """power_spectrum_1d / cross_power_spectrum_1d from the field itself."""
    f, g = ctx.array('f', shape, -3, 3), ctx.array('g', shape, -3, 3)
    k = np.sqrt((S.kvec(shape, dims) ** 2).sum(1))
    e = bins_for(k, nb)
    got, mid, n = ctx.t2c.power_spectrum_1d(f, kbins=ctx.const(e), box_dims=dims, return_n_modes=True)
    compare(ctx, got, n, S.ps_ref(ctx, f, shape, dims), select(k, e), 'auto')
    got2, mid2 = ctx.t2c.power_spectrum_1d(f, kbins=list(e), box_dims=dims)
    ctx.close(got2, got, 'same spectrum without the mode counts (bin edges as a list)', nan_ok=True)
    got, mid, n = ctx.t2c.cross_power_spectrum_1d(f, g, kbins=ctx.const(e), box_dims=dims, return_n_modes=True)
    compare(ctx, got, n, S.ps_ref(ctx, f, shape, dims, g), select(k, e), 'cross')


@case(quick=[dict(shape=(4, 3, 4), dims=(3., 5., 2.), nb=3, binning=b) for b in ('log', 'linear', 'mixed')],
      thorough=[dict(shape=(4, 4, 4), dims=6., nb=4, binning=b) for b in ('log', 'linear', 'mixed')])
def integer_bins(ctx, shape, dims, nb, binning):
    """Bins requested by number: from the fundamental to the largest mode."""
    f = ctx.array('p', shape, -3, 3)
    k = np.sqrt((S.kvec(shape, dims) ** 2).sum(1))
    kmin, kmax = 2 * np.pi / min(S.dims_of(shape, dims)), k.max()
    got, mid, n = ctx.t2c.radial_average(f, box_dims=dims, kbins=nb, binning=binning, breakpoint=3.0)
    mid = np.asarray(ctx.concrete(mid), float)
    lin, log = np.linspace(kmin, kmax, nb + 1), 10 ** np.linspace(np.log10(kmin), np.log10(kmax), nb + 1)
    e = {'log': log, 'linear': lin, 'mixed': np.hstack([lin[lin < 3.0], log[log > 3.0]])}[binning]
    ctx.check(mid.shape == (len(e) - 1,) and np.allclose(mid, (e[1:] + e[:-1]) / 2), 'bin centres')
    tiny = 1e-9
    a = [[j for j in range(len(k)) if e[b] + tiny < k[j] < e[b + 1] - tiny] for b in range(len(e) - 1)]
    full = [[j for j in range(len(k)) if e[b] - tiny < k[j] < e[b + 1] + (tiny if b == len(e) - 2 else -tiny)] for b in range(len(e) - 1)]
    compare(ctx, got, n, list(f.reshape(-1)), full, binning, edge=a)


@case(quick=[dict(shape=(4, 3, 2), dims=(3., 5., 2.), axis=0, how='linear'), dict(shape=(2, 3, 4), dims=6., axis=1, how='edges'), dict(shape=(2, 3, 4), dims=(2., 3., 9.), axis=2, how='log')],
      thorough=[dict(shape=(3, 4, 5)[a:] + (3, 4, 5)[:a], dims=(2., 3., 9.), axis=(2 - a) % 3, how=h) for a in (0, 1, 2) for h in ('linear', 'edges', 'log')], weight=4)
def cylindrical(ctx, shape, dims, axis, how):
    f = ctx.array('f', shape, -3, 3)
    kv = S.kvec(shape, dims)
    kpar = abs(kv[:, axis])
    kper = np.sqrt((np.delete(kv, axis, 1) ** 2).sum(1))
    if how == 'edges':
        ea, eb = bins_for(kper, 3), bins_for(kpar, 2)
        kb = [ctx.const(ea), ctx.const(eb)]
        fa = fb = lambda x: x
    else:
        kb = [3, 2]
        fn = np.log10 if how == 'log' else (lambda x: x)
        ea = np.linspace(fn(kper[kper > 1e-12].min()), fn(kper.max()), 4)
        eb = np.linspace(fn(kpar[kpar > 1e-12].min()), fn(kpar.max()), 3)
        with np.errstate(divide='ignore'):
            kper, kpar = fn(kper), fn(kpar)
    ps, a, b, n = ctx.t2c.power_spectrum_2d(f, kbins=kb, binning=how if how != 'edges' else 'linear', box_dims=dims, return_modes=True, nu_axis=axis)
    ctx.check(ps.shape == (len(ea) - 1, len(eb) - 1), 'shape (k_perp, k_par)')
    inv = (lambda x: 10 ** x) if how == 'log' else (lambda x: x)
    ctx.check(np.allclose(ctx.concrete(a), inv((ea[1:] + ea[:-1]) / 2)) and np.allclose(ctx.concrete(b), inv((eb[1:] + eb[:-1]) / 2)), 'bin centres')
    ref = S.ps_ref(ctx, f, shape, dims)
    t = 1e-9
    full, strict = [], []
    for i in range(len(ea) - 1):
        for j in range(len(eb) - 1):
            ua, ub = (t if i == len(ea) - 2 else -t), (t if j == len(eb) - 2 else -t)
            full.append([m for m in range(len(ref)) if ea[i] - t < kper[m] < ea[i + 1] + ua and eb[j] - t < kpar[m] < eb[j + 1] + ub])
            strict.append([m for m in range(len(ref)) if ea[i] + t < kper[m] < ea[i + 1] - t and eb[j] + t < kpar[m] < eb[j + 1] - t])
    compare(ctx, ps, n, ref, full, 'cylindrical', edge=strict)
    if how == 'edges':
        ctx.check(float(np.sum(ctx.concrete(n))) == np.prod(shape), 'every mode counted exactly once')


@case(quick=[dict(shape=(2, 3, 2), dims=(3., 5., 2.), axis=1, excl=False, absmu=True), dict(shape=(3, 2, 2), dims=6., axis=0, excl=True, absmu=True),
             dict(shape=(2, 2, 3), dims=(2., 2., 5.), axis=2, excl=True, absmu=False), dict(shape=(3, 3, 2), dims=5., axis=0, excl=True, absmu=True)],
      thorough=[dict(shape=(3, 4, 3), dims=(3., 5., 2.), axis=a, excl=x, absmu=m) for a in (0, 1, 2) for x in (True, False) for m in (True, False)], weight=3)
def angular(ctx, shape, dims, axis, excl, absmu):
    """(mu, k) binning with explicit bins that cover every mode."""
    f, g = ctx.array('f', shape, -3, 3), ctx.array('g', shape, -3, 3)
    kv = S.kvec(shape, dims)
    k = np.sqrt((kv ** 2).sum(1))
    with np.errstate(invalid='ignore', divide='ignore'):
        mu = kv[:, axis] / k
    mu[k < 1e-9] = np.nan
    if absmu:
        mu = abs(mu)
    ek = bins_for(k, 3)
    em = bins_for(mu[np.isfinite(mu)], 3) if not absmu else np.array([-0.01, 0.37, 0.81, 1.01])
    if not absmu:
        em[0] = -1.01
    good = np.ones(len(k), bool)
    if excl:
        good = np.sqrt((np.delete(kv, axis, 1) ** 2).sum(1)) > 1e-9
    kw = dict(los_axis=axis, mubins=ctx.const(em), kbins=ctx.const(ek), box_dims=dims, exclude_zero_modes=excl, return_n_modes=True, absolute_mus=absmu)
    sel = [[m for m in range(len(k)) if good[m] and em[i] <= mu[m] < em[i + 1] and ek[j] <= k[m] < ek[j + 1]] for i in range(len(em) - 1) for j in range(len(ek) - 1)]
    ps, mm, kk, n = ctx.t2c.power_spectrum_mu(f, **kw)
    ctx.check(np.allclose(ctx.concrete(mm), (em[1:] + em[:-1]) / 2) and np.allclose(ctx.concrete(kk), (ek[1:] + ek[:-1]) / 2), 'bin centres')
    compare(ctx, ps, n, S.ps_ref(ctx, f, shape, dims), sel, 'angular')
    ps, mm, kk, n = ctx.t2c.cross_power_spectrum_mu(f, g, **kw)
    compare(ctx, ps, n, S.ps_ref(ctx, f, shape, dims, g), sel, 'angular cross')


@case(quick=[dict(shape=(3, 3, 2), axis=0), dict(shape=(2, 3, 3), axis=2)], thorough=[dict(shape=(4, 3, 3), axis=1)])
def angular_weights(ctx, shape, axis):
    """Weighted mode average and integer bin numbers."""
    f = ctx.array('f', shape, -3, 3)
    w = 0.5 + ctx.det(3, *shape)
    kv = S.kvec(shape, 5.0)
    k = np.sqrt((kv ** 2).sum(1))
    with np.errstate(invalid='ignore', divide='ignore'):
        mu = abs(kv[:, axis] / k)
    good = np.sqrt((np.delete(kv, axis, 1) ** 2).sum(1)) > 1e-9
    ek = bins_for(k, 2)
    ps, mm, kk = ctx.t2c.power_spectrum_mu(f, los_axis=axis, mubins=2, kbins=ctx.const(ek), box_dims=5.0, weights=ctx.const(w))
    ctx.check(np.allclose(ctx.concrete(mm), [0.25, 0.75]), 'mu bins')
    ref = S.ps_ref(ctx, f, shape, 5.0)
    w = w.reshape(-1)
    for i in range(2):
        for j in range(len(ek) - 1):
            idx = [m for m in range(len(k)) if good[m] and i * 0.5 <= mu[m] < i * 0.5 + 0.5 and ek[j] <= k[m] < ek[j + 1]]
            if idx:
                ctx.close(ps[i, j], sum(ref[m] * float(w[m]) for m in idx) / float(sum(w[m] for m in idx)), 'weighted mean %d %d' % (i, j), tol=1e-5)


@case(quick=[dict(shape=(3, 2, 3), axis=0), dict(shape=(2, 3, 2), axis=1)], thorough=[dict(shape=(3, 3, 3), axis=2)])
def multipoles(ctx, shape, axis):
    """Each multipole is the least-squares coefficient of its Legendre
    polynomial over the modes of the bin."""
    f = ctx.array('f', shape, -1, 1)
    kv = S.kvec(shape, 5.0)
    k = np.sqrt((kv ** 2).sum(1))
    e = bins_for(k, 3)[1:]
    e[0] = np.unique(np.round(k, 9))[1] * 0.5
    with np.errstate(invalid='ignore', divide='ignore'):
        mu = abs(kv[:, axis] / k)
    out, kk = ctx.t2c.power_spectrum_multipoles(f, kbins=ctx.const(e), box_dims=5.0, los_axis=axis)
    ref = S.ps_ref(ctx, f, shape, 5.0)
    L = {'P0': np.ones_like(mu), 'P2': 1.5 * mu ** 2 - 0.5, 'P4': (35 * mu ** 4 - 30 * mu ** 2 + 3) / 8}
    for b, idx in enumerate(select(k, e)):
        ctx.check(float(ctx.concrete(out['nmodes'][b])) == len(idx), 'number of modes in bin %d' % b)
        for l in L:
            den = float(sum(L[l][m] ** 2 for m in idx))
            if den > 1e-6:
                ctx.close(out[l][b], sum(ref[m] * float(L[l][m]) for m in idx) / den, '%s of bin %d' % (l, b), tol=2e-2)


@case(quick=[dict(shape=(3, 2, 4), dims=(3., 5., 2.))], thorough=[dict(shape=(4, 5, 3), dims=6.)])
def grids(ctx, shape, dims):
    """get_k and get_kbins report the physical wavenumbers."""
    arr = ctx.array('a', shape, -1, 1, free=())
    comp, k = ctx.t2c.get_k(arr, dims)
    kv = S.kvec(shape, dims)
    for i in range(len(shape)):
        ctx.close(comp[i].reshape(-1), ctx.const(kv[:, i]), 'component %d' % i)
    ctx.close(k.reshape(-1), ctx.const(np.sqrt((kv ** 2).sum(1))), 'modulus')
    e = ctx.t2c.get_kbins(3, dims, array=arr, binning='linear')
    ctx.close(e, ctx.const(np.linspace(2 * np.pi / min(S.dims_of(shape, dims)), np.sqrt((kv ** 2).sum(1)).max(), 4)), 'edges')


@case(quick=[dict(shape=(2, 4, 3), win='blackmanharris'), dict(shape=(2, 2, 3), win='array')], thorough=[dict(shape=(3, 4, 2), win='tukey')])
def windows(ctx, shape, win):
    """Tapering multiplies the field along the frequency axis and leaves the
    caller's array alone."""
    from scipy.signal import windows as W
    f = ctx.array('f', shape, -3, 3)
    f0 = f.copy()
    kv = np.sqrt((S.kvec(shape, 4.0) ** 2).sum(1))
    e = bins_for(kv, 3)
    if win == 'array':
        w = ctx.det(1, *shape)
        wz = w
        arg = ctx.const(w)
    else:
        w = getattr(W, win)(shape[2])[None, None, :]
        arg = win
    got = ctx.t2c.power_spectrum_1d(f, kbins=ctx.const(e), box_dims=4.0, window=arg)[0]
    ctx.close(f, f0, 'input not modified')
    ctx.close(got, ctx.t2c.power_spectrum_1d(f0 * ctx.const(w), kbins=ctx.const(e), box_dims=4.0)[0], 'spectrum of the tapered field', nan_ok=True)
    if win != 'array':
        ax = 1
        w = getattr(W, win)(shape[ax])[None, :, None]
        g1 = ctx.t2c.power_spectrum_2d(f, kbins=2, binning='linear', box_dims=4.0, nu_axis=ax, window=arg)[0]
        g2 = ctx.t2c.power_spectrum_2d(f0 * ctx.const(w), kbins=2, binning='linear', box_dims=4.0, nu_axis=ax)[0]
        ctx.close(f, f0, 'input not modified by the cylindrical spectrum')
        ctx.close(g1, g2, 'cylindrical spectrum of the tapered field', nan_ok=True)


@case(quick=[dict(shape=(4, 4, 4), box=40.0, kbins=3, binning='log'), dict(shape=(4, 3, 2), box=(40.0, 24.0, 30.0), kbins=4, binning='linear'), dict(shape=(5, 4), box=20.0, kbins=5, binning='log')],
      thorough=[dict(shape=(4, 4, 6), box=60.0, kbins=6, binning='linear')])
def dimensionless(ctx, shape, box, kbins, binning):
    """k^3 P(k) / 2 pi^2, linear between the non-empty fine bins, on kbins wave numbers from the second to the last of them."""
    P = ctx.mod('power_spectrum')
    x = ctx.array('x', shape, -3, 3)
    x0 = ctx.np.array(x)
    p, k = P.power_spectrum_1d(x, kbins=2 * kbins, box_dims=box, binning=binning)
    got, ks = P.dimensionless_ps(x, kbins=kbins, box_dims=box, binning=binning, factor=2)
    k, ks = np.asarray(ctx.concrete(k), float), np.asarray(ctx.concrete(ks), float)
    full = [i for i in range(2 * kbins) if not (isinstance(p[i], (float, np.floating)) and p[i] != p[i])]
    e = k[full]
    want = np.geomspace(e[1], e[-1], kbins) if binning == 'log' else np.linspace(e[1], e[-1], kbins)
    ctx.check(got.shape == (kbins,) and bool(np.allclose(ks, want, rtol=1e-9)), 'wave numbers')
    for i, v in enumerate(want):
        j = min(max(int(np.searchsorted(e, v * (1 - 1e-12))), 1), len(e) - 1)
        w = (v - e[j - 1]) / (e[j] - e[j - 1])
        a, b = p[full[j - 1]] * e[j - 1] ** 3, p[full[j]] * e[j] ** 3
        ctx.close(got[i], (a * (1 - w) + b * w) / (2 * np.pi ** 2), 'dimensionless power', tol=1e-5)
    ctx.close(x, x0, 'input not modified', tol=0)
