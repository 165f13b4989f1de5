"""Gaussian random fields."""
import itertools

import numpy as np
from symex.harness import case

STUBS = ['normal draws: every value of every draw', 'discrete Fourier transform by its defining sum']
OUTSIDE = 'the generator behind the draws and its seed; more than 27 cells'


def wave(shape, box):
    q = list(itertools.product(*[[(i + n // 2) % n - n // 2 for i in range(n)] for n in shape]))
    return q, [float(np.sqrt(sum((2 * np.pi * c / L) ** 2 for c, L in zip(v, box)))) for v in q]


SHAPES = [dict(shape=(2, 3), box=(4.0, 9.0)), dict(shape=(3, 3), box=5.0), dict(shape=(2, 2, 2), box=(4.0, 5.0, 6.0)), dict(shape=(1, 3, 2), box=(3.0, 6.0, 8.0)), dict(shape=(4, 1, 1), box=(8.0, 2.0, 2.0)), dict(shape=(1, 5, 1), box=(2.0, 9.0, 2.0))]


def squares(ctx):
    if ctx.sym:
        ctx.E.squares = True


@case(quick=SHAPES, thorough=[dict(shape=(3, 3, 3), box=7.0), dict(shape=(4, 3, 2), box=(4.0, 6.0, 5.0)), dict(shape=(5, 4), box=(5.0, 6.0)), dict(shape=(7, 1, 1), box=7.0)])
def ensemble(ctx, shape, box):
    """The field is linear in independent normal draws, its modes are uncorrelated
    and the mean power of each is that of the requested spectrum at its wave number."""
    G = ctx.mod('gaussian_random_field')
    N = ctx.np
    squares(ctx)
    L = (box,) * len(shape) if not isinstance(box, tuple) else box
    q, k = wave(shape, L)
    tab, low = {}, None
    for v in sorted(set(round(v, 7) for v in k)):
        if v > 0:
            tab[v] = ctx.real('s%d' % len(tab), 0.1, 3)
    low = ctx.real('s_low', 0.1, 3)

    def root(v):
        return next((s for w, s in tab.items() if abs(v - w) < 1e-6), low)

    def P(kk):
        return N.array([root(float(ctx.concrete(v))) ** 2 for v in N.array(kk).reshape(-1)]).reshape(kk.shape)
    n = int(np.prod(shape))
    make = lambda: G.make_gaussian_random_field(shape, box, P, random_seed=3)
    ctx.random(impulse=0)
    base = make()
    m = ctx.ndraw
    ctx.check(base.shape == shape and m > 0, 'shape')
    resp = []
    for i in range(m):
        ctx.random(impulse=i)
        resp.append(make())
    # mean power of each mode and correlation between modes
    ft = [N.fft.fftn(r).reshape(-1) for r in resp]
    index = {tuple(c % d for c, d in zip(v, shape)): i for i, v in enumerate(q)}
    V = float(np.prod(L))
    for a in range(n):
        p = 0.0
        for f in ft:
            p = p + f[a].real * f[a].real + f[a].imag * f[a].imag
        if k[a] > 0:
            ctx.close(p * (V / n ** 2), root(k[a]) ** 2, 'power', tol=1e-5)
        for b in range(a):
            if index[tuple(-c % d for c, d in zip(q[a], shape))] == b:
                continue
            re = im = 0.0
            for f in ft:
                re = re + f[a].real * f[b].real + f[a].imag * f[b].imag
                im = im + f[a].imag * f[b].real - f[a].real * f[b].imag
            ctx.close(re, 0.0, 'uncorrelated', tol=1e-5 * n * n / V)
            ctx.close(im, 0.0, 'uncorrelated', tol=1e-5 * n * n / V)


@case(quick=SHAPES, thorough=[dict(shape=(3, 3, 3), box=7.0), dict(shape=(4, 3, 2), box=(4.0, 6.0, 5.0))])
def linear(ctx, shape, box):
    """For every value of the draws the field is the sum of the responses to the single draws, and real."""
    G = ctx.mod('gaussian_random_field')
    N = ctx.np
    P = lambda k: 3.0 / (k + 0.2)
    make = lambda: G.make_gaussian_random_field(shape, box, P)
    ctx.random(impulse=0)
    total = make() * 0.0
    m = ctx.ndraw
    ctx.random()
    got = make()
    vals = ctx.drawn()
    ctx.check(len(vals) == m, 'number of draws')
    for i in range(m):
        ctx.random(impulse=i)
        total = total + make() * vals[i]
    ctx.close(got, total, 'linear', tol=1e-5)
    ctx.check(not N.iscomplexobj(got), 'real field')


@case(quick=[dict(shape=(4, 4), kbins=3), dict(shape=(4, 4), kbins=12), dict(shape=(3, 3, 3), kbins=2), dict(shape=(4, 4, 4), kbins=4)], thorough=[dict(shape=(5, 4, 6), kbins=5)])
def like(ctx, shape, kbins):
    """A field like another one has the power spectrum of that field, linear between the bins and zero outside."""
    G, S = ctx.mod('gaussian_random_field'), ctx.mod('power_spectrum')
    N = ctx.np
    f = ctx.det(3, *shape)
    box = 10.0
    ps, ks, nm = S.power_spectrum_1d(f, kbins=kbins, box_dims=box, return_n_modes=True)
    ps, ks, nm = [np.array([float(ctx.concrete(v)) for v in a]) for a in (ps, ks, nm)]
    ok = nm > 0

    def P(k):
        kk = np.array([float(ctx.concrete(v)) for v in N.array(k).reshape(-1)])
        return np.interp(kk, ks[ok], ps[ok], left=0.0, right=0.0).reshape(k.shape)
    ctx.random()
    got = G.make_gaussian_random_field_like_field(f, box, kbins=kbins)
    ctx.random()
    want = G.make_gaussian_random_field(shape, box, P)
    ctx.close(got, want, 'field', tol=1e-6)
    ctx.close(f, ctx.det(3, *shape), 'input not modified', tol=0)
