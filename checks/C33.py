"""Foregrounds: galactic and extragalactic maps, wedge filters and their removal."""
import itertools

import numpy as np
from symex.harness import case

STUBS = ['normal, uniform and integer draws: every value of every draw', 'discrete Fourier transform by its defining sum']
OUTSIDE = 'the generator behind the draws and its seed; the source counts beyond the number of sources; the funct "gaussian", which is that of a step; larger maps and cubes'


def flux(ctx, z, n, box):
    """Micro-jansky per pixel of one mK."""
    cm = ctx.mod('cosmo')
    D, nu = float(ctx.concrete(cm.z_to_cdist(float(z)))), float(ctx.concrete(cm.z_to_nu(float(z))))
    return D, nu, 2 * 1.38e-23 / 2.99e8 ** 2 / 1e-26 * (nu * 1e6) ** 2 * 1e3 * (box / D) ** 2 / n ** 2


@case(quick=[dict(n=2, z=9.0), dict(n=2, z=[7.5, 12.0]), dict(n=3, z=10.0)], thorough=[dict(n=4, z=[8]), dict(n=3, z=10)])
def galactic(ctx, n, z):
    """Every slice is the modulus of the transform of the same draws, scaled by the angular power at that frequency."""
    F, N = ctx.mod('foreground_model'), ctx.np
    box = 500.0
    ctx.random()
    got = F.galactic_synch_fg(z, n, box, rseed=7)
    d = ctx.drawn()
    zs = z if isinstance(z, list) else [z]
    ctx.check(tuple(got.shape) == ((n, n) if len(zs) == 1 else (n, n, len(zs))), 'shape')
    ctx.check(len(d) == 2 * n * n, 'two draws per mode, whatever the number of slices')
    d = [v + 0.0 for v in d]
    for s, zz in enumerate(zs):
        D, nu, con = flux(ctx, zz, n, box)
        con_code = float(ctx.concrete(ctx.mod('radio_telescope_sensitivity').kelvin_jansky_conversion(n, zz, boxsize=box)))
        ctx.check(abs(con_code / con - 1) < 0.02, 'conversion')
        A = np.zeros((n, n))
        for i, j in np.ndindex(n, n):
            l = 2 * np.pi * np.hypot(i - n // 2 + 0.5, j - n // 2 + 0.5) * D / box
            C = 513 * (1000 / l) ** 2.34 * (nu / 150) ** (-5.6 - 0.2 * np.log(nu / 150))
            A[i, j] = np.sqrt((box / D) ** 2 * C / 2) * 1e6 / con_code / n ** 2
        m = got if len(zs) == 1 else got[:, :, s]
        for a, b in np.ndindex(n, n):
            re = im = 0.0
            for p, (i, j) in enumerate(np.ndindex(n, n)):
                ph = 2 * np.pi * (i * a + j * b) / n
                c, si = float(np.round(np.cos(ph), 15)), float(np.round(np.sin(ph), 15))
                re = re + A[i, j] / A.max() * (d[p] * c - d[n * n + p] * si)
                im = im + A[i, j] / A.max() * (d[p] * si + d[n * n + p] * c)
            ctx.close((m[a, b] / A.max()) ** 2, re ** 2 + im ** 2, 'map', tol=1e-6)
            ctx.ge(m[a, b], 0, 'amplitude')


@case(quick=[dict(n=2, z=9.0, S=0.125, sources=2), dict(n=2, z=[8.0, 11.0], S=0.115, sources=2)], thorough=[dict(n=2, z=[7, 9], S=0.115, sources=3), dict(n=3, z=8, S=0.115, sources=2)])
def point_sources(ctx, n, z, S, sources):
    """The flux of every pixel is that of all the sources in it, each with its own spectral index."""
    F = ctx.mod('foreground_model')
    zs = z if isinstance(z, list) else [z]
    Ss = np.arange(0.1, S, 0.01)
    per = 10 ** 3.75 * np.trapezoid(Ss ** -1.6, x=Ss)
    D0 = flux(ctx, min(zs), n, 1.0)[0]
    box = float(D0 * np.sqrt((sources + 0.5) / per))
    ctx.random()
    got = F.extragalactic_pointsource_fg(z, n, box, rseed=5, S_max=S)
    d = ctx.drawn()
    N = sources
    ctx.check(tuple(got.shape) == ((n, n) if len(zs) == 1 else (n, n, len(zs))), 'shape')
    ctx.check(len(d) == 4 * N, 'number of sources')
    d = [v + 0.0 for v in d]
    x, y, al, pick = d[:N], d[N:2 * N], d[2 * N:3 * N], d[3 * N:]
    for s, zz in enumerate(zs):
        nu = flux(ctx, zz, n, box)[1]
        con = float(ctx.concrete(ctx.mod('radio_telescope_sensitivity').kelvin_jansky_conversion(n, zz, boxsize=box)))
        for a, b in np.ndindex(n, n):
            want = 0.0
            for p in range(N):
                f = 0.0
                for q, v in enumerate(Ss):
                    f = f + ctx.np.where(pick[p] == q, v, 0.0)
                f = f * ctx.np.exp(-(0.7 + 0.1 * al[p]) * float(np.log(nu / 150)))
                want = want + ctx.np.where((x[p] == a) & (y[p] == b), f, 0.0)
            ctx.close((got if len(zs) == 1 else got[:, :, s])[a, b] * con, want, 'flux of a pixel', tol=1e-6)


def modes(n):
    return [(i + n // 2) % n - n // 2 for i in range(n)]


def expected_filter(ctx, n, m, box, mu, kmin, funct, order):
    """Filter value of the modes (in `order` of the indices of each axis)."""
    N = ctx.np
    out = {}
    for (i, a), (j, b), (l, c) in itertools.product(enumerate(order(n)), enumerate(order(n)), enumerate(order(m))):
        kp = 2 * np.pi * np.hypot(a, b) / box
        kl = 2 * np.pi * abs(c) / box * n / m
        lim = kl * (1 - mu ** 2) / mu
        if funct == 'sigmoid':
            v = 10 * (kp - lim)
        else:
            v = N.where(kp <= lim, 0.0, 1.0)
            if c != 0:
                ctx.assume((kp > lim + 1e-6) | (kp < lim - 1e-6))
        if kp == 0:
            v = 0.0
        elif funct == 'sigmoid':
            v = 0.0 if kp <= kmin else v
        elif ctx.sym or not isinstance(kmin, float):
            v = N.where(kp <= kmin, 0.0, v)
        else:
            v = 0.0 if kp <= kmin else v
        out[i, j, l] = v
    return out


def shifted(n):
    return [i - n // 2 for i in range(n)]


@case(quick=[dict(n=4), dict(n=5, m=3), dict(n=4, m=6, funct='sigmoid'), dict(n=3, kind='barrel'), dict(n=4, m=2, kind='barrel')],
      thorough=[dict(n=6, m=4), dict(n=7, m=7), dict(n=6, m=3, kind='barrel'), dict(n=7, funct='sigmoid')])
def filters(ctx, n, m=None, funct='step', kind='diabolo'):
    """Wedge and barrel filters have one value per Fourier mode, in the order of the shifted transform."""
    F, N = ctx.mod('foreground_model'), ctx.np
    z, box = 8.0, 40.0
    sig = funct == 'sigmoid'
    mu = ctx.real('mu', 0.3, 0.95) if sig else ctx.real('mu', 0.1, 0.95)
    b = 250.0 if sig else ctx.real('b', 5, 2000)
    D = flux(ctx, z, n, box)[0]
    kmin = np.pi / (D * 0.21) * b
    for a, c in itertools.product(modes(n), repeat=2):
        k = 2 * np.pi * np.hypot(a, c) / box
        ctx.assume((kmin > k + 1e-6) | (kmin < k - 1e-6))
    kw = dict(ncells=n) if m is None else dict(array=np.zeros((n, n, m)))
    m = n if m is None else m
    if kind == 'diabolo':
        got = F.diabolo_filter(z, boxsize=box, mu=mu, funct=funct, small_base=b, **kw)
        want = expected_filter(ctx, n, m, box, mu, kmin, funct, shifted)
    else:
        got = F.barrel_filter(z, boxsize=box, small_base=b, **kw)
        k = ctx.real('k', 0.01, 2)
        for a, c in itertools.product(modes(n), repeat=2):
            q = 2 * np.pi * np.hypot(a, c) / box
            ctx.assume((k > q + 1e-6) | (k < q - 1e-6))
        lim = F.barrel_filter(z, boxsize=box, k_par_min=k, **kw)
        want, want2 = {}, {}
        for (i, a), (j, c), l in itertools.product(enumerate(shifted(n)), enumerate(shifted(n)), range(m)):
            q = 2 * np.pi * np.hypot(a, c) / box
            want[i, j, l] = N.where(q <= kmin, 0.0, 1.0)
            want2[i, j, l] = N.where(q <= k, 0.0, 1.0)
        ctx.check(tuple(lim.shape) == (n, n, m), 'shape')
        for i in want2:
            ctx.close(lim[i], want2[i], 'barrel of the given wave number', tol=1e-9)
    ctx.check(tuple(got.shape) == (n, n, m), 'shape')
    for i, v in want.items():
        if sig and not (isinstance(v, float) and v == 0):
            v2 = got[i]
            ctx.check((v2 > 0) & (v2 < 1), 'sigmoid')
            ctx.close(N.log(1 / (1 - v2) - 1), v, 'logit of the filter', tol=1e-6)
        else:
            ctx.close(got[i], v, 'filter', tol=1e-9)


def dft(x, shape, sign=-1):
    """Transform of a dictionary of numbers (re, im) by its defining sum."""
    out = {}
    for q in np.ndindex(*shape):
        re = im = 0.0
        for p in np.ndindex(*shape):
            ph = sign * 2 * np.pi * sum(a * b / n for a, b, n in zip(p, q, shape))
            c, s = float(np.round(np.cos(ph), 15)), float(np.round(np.sin(ph), 15))
            re = re + x[p][0] * c - x[p][1] * s
            im = im + x[p][0] * s + x[p][1] * c
        out[q] = (re, im)
    return out


@case(quick=[dict(n=2, m=2), dict(n=3, m=2), dict(n=2, m=3, mu=0.3), dict(n=3, m=3, own=True)], thorough=[dict(n=3, m=3, mu=0.9), dict(n=4, m=2), dict(n=2, m=5)])
def removal(ctx, n, m, mu=0.6, own=False):
    """Modes inside the wedge are removed and all others kept as they are, for every cube."""
    F, N = ctx.mod('foreground_model'), ctx.np
    z, box = 8.0, 40.0
    x = ctx.array('x', (n, n, m), -5, 5)
    x0 = N.array(x)
    D = flux(ctx, z, n, box)[0]
    order = lambda k: modes(k)
    if own:
        w = {}
        filt = np.zeros((n, n, m))
        for i, j, l in np.ndindex(n, n, m):
            a, b, c = shifted(n)[i], shifted(n)[j], shifted(m)[l]
            filt[i, j, l] = 0.25 * (abs(a) + 2 * abs(b) + 3 * abs(c))
            w[a % n, b % n, c % m] = filt[i, j, l]
        got = F.remove_wedge_image(x, z, filt=filt)
    else:
        w = expected_filter(ctx, n, m, box, mu, float(np.pi / (D * 0.21) * 40), 'step', order)
        w = {k: float(ctx.concrete(v)) if not isinstance(v, float) else v for k, v in w.items()}
        got = F.remove_wedge_image(x, z, mu=mu, boxsize=box)
    ctx.check(tuple(got.shape) == (n, n, m), 'shape')
    f = dft({i: (x0[i], 0.0) for i in np.ndindex(n, n, m)}, (n, n, m))
    f = {k: (v[0] * w[k], v[1] * w[k]) for k, v in f.items()}
    back = dft(f, (n, n, m), 1)
    for i in np.ndindex(n, n, m):
        ctx.close(got[i], back[i][0] / (n * n * m), 'filtered cube', tol=1e-6)
    ctx.close(x, x0, 'input not modified', tol=0)


@case(quick=[dict(n=2, m=4, c=5, t=0.3), dict(n=2, m=3, c=4, t=0.7), dict(n=2, m=6, c=6, t=0.7), dict(n=3, m=3, c=4, t=0.7), dict(n=3, m=2, c=5, t=0.7, om=0.6), dict(n=2, m=4, c=4, t=0.2, zs=(8.0, 10.0))],
      thorough=[dict(n=3, m=3, c=5, t=0.3, zs=(7.0, 12.0)), dict(n=2, m=6, c=5, t=0.7), dict(n=4, m=4, c=None, t=0.7), dict(n=2, m=7, c=6, t=0.7)])
def rolling(ctx, n, m, c, t, om=None, zs=(0.12, 1.3)):
    """Every channel is the middle of its own tapered chunk, without the modes
    below the horizon of the highest redshift in the chunk."""
    F, N = ctx.mod('foreground_model'), ctx.np
    x = ctx.array('x', (n, n, m), -5, 5)
    x0 = N.array(x)
    z = np.linspace(*zs, m)
    got = F.rolling_wedge_removal_lightcone(x, z, cell_size=1.5, chunk_length=c, OMm=om, buffer_threshold=t)
    ctx.check(tuple(got.shape) == (n, n, m), 'shape')
    c = min(n, m) if c is None else c
    O = float(ctx.mod('const').Omega0) if om is None else om
    E = lambda v: np.sqrt(O * (1 + v) ** 3 + 1 - O)
    from scipy.integrate import quad
    MF = [float(E(v) / (1 + v) * quad(lambda u: 1 / E(u), 0, v)[0]) for v in z]
    win = np.blackman(c)
    pw = np.abs(np.fft.fft(win)) ** 2
    pw = np.where(np.abs(pw) < 1e-25, 0, pw)
    first = int(np.where(pw / pw.max() <= t)[0][0])
    assert np.all(np.abs(pw / pw.max() - t) > 1e-4) or t > 1
    buf = (first - 1) / c
    for s in range(m):
        ch = {(i, j, l): ((x0[i, j, s - c // 2 + l] * float(win[l]) if 0 <= s - c // 2 + l < m else 0.0), 0.0) for i in range(n) for j in range(n) for l in range(c)}
        f = dft(ch, (n, n, c))
        mf = MF[min(s - c // 2 + c - 1, m - 1)]
        keep = {}
        for i, j, l in f:
            kp = np.hypot(modes(n)[i], modes(n)[j]) / n
            kl = abs(modes(c)[l]) / c
            keep[i, j, l] = kl > kp * mf + buf + 1e-9
            assert kl == 0 or abs(kl - kp * mf - buf) > 1e-5 or (kp == 0), 'tie'
        f = {k: (v if keep[k] else (0.0, 0.0)) for k, v in f.items()}
        for i, j in np.ndindex(n, n):
            v = 0.0
            for q in f:
                if keep[q]:
                    ph = 2 * np.pi * (i * q[0] / n + j * q[1] / n + (c // 2) * q[2] / c)
                    v = v + f[q][0] * float(np.round(np.cos(ph), 15)) - f[q][1] * float(np.round(np.sin(ph), 15))
            ctx.close(got[i, j, s], v / (n * n * c), 'channel', tol=1e-4)
    ctx.close(x, x0, 'input not modified', tol=0)
