"""Position-dependent power spectra (integrated bispectrum)."""
import itertools

import numpy as np
from symex.harness import case

STUBS = ['discrete Fourier transform by its defining sum']
OUTSIDE = 'the sliding version (unfinished in the package); cubes of more than 16 cells; wave numbers of empty bins'


def regions(shape, cuts):
    step = [n // cuts for n in shape]
    for o in itertools.product(range(cuts), repeat=3):
        yield tuple(slice(i * s, (i + 1) * s) for i, s in zip(o, step))


def by_definition(ctx, a, b, cuts, **kw):
    """Means over the sub-boxes of P(a in the box) * mean(b), of P(a in the box) and of mean(b)^2."""
    P, N = ctx.mod('power_spectrum'), ctx.np
    B = Pm = s2 = 0.0
    n = cuts ** 3
    for r in regions(a.shape, cuts):
        w = N.zeros(a.shape) + 0 * a
        w[r] = a[r]
        p, ks = P.power_spectrum_1d(w, **kw)
        m = b[r].sum() / b[r].size
        B, Pm, s2 = B + p * m / n, Pm + p / n, s2 + m * m / n
    return B, Pm, s2, ks


def finite(ctx, ks, shape, box, kw):
    """Bins that contain modes."""
    n = ctx.mod('power_spectrum').power_spectrum_1d(np.ones(shape), return_n_modes=True, **kw)[2]
    return [i for i in range(len(ks)) if float(ctx.concrete(n[i])) > 0]


@case(quick=[dict(shape=(2, 2, 2), cuts=2, binning='linear'), dict(shape=(4, 2, 2), cuts=2, binning='log'), dict(shape=(2, 1, 3), cuts=1, binning='linear'), dict(shape=(3, 3, 3), cuts=3, binning='log')],
      thorough=[dict(shape=(2, 4, 2), cuts=2, binning='log'), dict(shape=(2, 2, 4), cuts=2, binning='linear'), dict(shape=(4, 4, 4), cuts=2, binning='linear')])
def definition(ctx, shape, cuts, binning):
    """Every cell of the box belongs to exactly one sub-box."""
    M = ctx.mod('position_dependent_power_spectrum')
    N = ctx.np
    nfree = 8 if np.prod(shape) > 8 else None
    n = int(np.prod(shape))
    a, b = [ctx.array(c, shape, -3, 3, free=None if nfree is None else list(range(o, n, -(-n // nfree))), rest=None if nfree is None else ctx.det(o, *shape)) for c, o in (('a', 0), ('b', 1))]
    a0, b0 = N.array(a), N.array(b)
    kw = dict(kbins=3, box_dims=12.0, binning=binning)
    B, _, _, ks = by_definition(ctx, a, b, cuts, **kw)
    ok = finite(ctx, ks, shape, 12.0, kw)
    got, k = M.integrated_bispectrum_cross(a, b, Ncuts=cuts, verbose=False, **kw)
    ctx.close(N.array(k), N.array(ks), 'wave numbers', tol=1e-9)
    for i in ok:
        ctx.close(got[i], B[i], 'cross', tol=1e-3, rtol=1e-6)
    B, _, _, ks = by_definition(ctx, a, a, cuts, **kw)
    got, k = M.integrated_bispectrum(a, Ncuts=cuts, verbose=False, **kw)
    for i in ok:
        ctx.close(got[i], B[i], 'auto', tol=1e-3, rtol=1e-6)
    ctx.close(a, a0, 'first cube not modified', tol=0)
    ctx.close(b, b0, 'second cube not modified', tol=0)


@case(quick=[dict(shape=(2, 2, 2), cuts=2, binning='linear'), dict(shape=(4, 2, 2), cuts=2, binning='log'), dict(shape=(2, 1, 3), cuts=1, binning='linear')],
      thorough=[dict(shape=(2, 4, 2), cuts=2, binning='log'), dict(shape=(3, 3, 3), cuts=3, binning='log')])
def response(ctx, shape, cuts, binning):
    """The response is normalised by the mean power and the mean square of the sub-box means."""
    M = ctx.mod('position_dependent_power_spectrum')
    N = ctx.np
    x, y = ctx.real('x', 0.5, 3), ctx.real('y', 0.5, 3)
    a, b = x * ctx.det(1, *shape), y * (2 + ctx.det(2, *shape)) * 0.3
    kw = dict(kbins=2, box_dims=12.0, binning=binning)
    for one, two, got in ((a, b, M.power_spectrum_response(a, b, Ncuts=cuts, verbose=False, **kw)),
                          (a, a, M.power_spectrum_response(a, Ncuts=cuts, verbose=False, **kw)),
                          (b, b, M.integrated_bispectrum(b, Ncuts=cuts, normalize=True, verbose=False, **kw)),
                          (b, a, M.integrated_bispectrum_cross(b, a, Ncuts=cuts, normalize=True, verbose=False, **kw))):
        B, P, s2, ks = by_definition(ctx, one, two, cuts, **kw)
        for i in finite(ctx, ks, shape, 12.0, kw):
            ctx.close(got[0][i] * P[i] * s2, B[i], 'response', tol=1e-3, rtol=1e-6)


@case(quick=[dict()])
def refused(ctx):
    """Cubes that do not match or cannot be cut are refused."""
    M = ctx.mod('position_dependent_power_spectrum')
    a = ctx.array('a', (2, 2, 2), -1, 1)
    ctx.check(ctx.raises(lambda: M.integrated_bispectrum_cross(a, a[:, :, :1], Ncuts=1)), 'different shapes')
    for s in ((3, 2, 2), (2, 3, 2), (2, 2, 3)):
        ctx.check(ctx.raises(lambda: M.integrated_bispectrum(ctx.np.zeros(s), Ncuts=2)), 'not divisible')
