"""Primary beam of the stations."""
import numpy as np
from symex.harness import case

STUBS = ['exp: unknown monotone function', 'comoving distances: see C07']
OUTSIDE = 'redshifts other than the listed ones; the Bessel beam for symbolic nulls (listed ones only); cells within 1e-6 of the edge of the step'

KINDS = ['step', 'gaussian', 'bessel', 'sigmoid']


def radius(n, box):
    i = (np.arange(n) - n / 2) * box / n
    return np.sqrt(i[:, None] ** 2 + i[None, :] ** 2)


def beam(ctx, n, box, null, kind):
    """Reference: radius from the centre n/2, maximum one."""
    from scipy.special import j1
    N = ctx.np
    r = radius(n, box)
    kind = kind.lower()
    if kind == 'step':
        b = N.where(r <= null / 2, 1.0, 0.0)
    elif kind == 'gaussian':
        b = N.exp(-r ** 2 / (2 * (null / 1.186 / 2.355) ** 2))
    elif kind == 'sigmoid':
        b = 1 - 1 / (1 + N.exp(0.5 * (null / 2 - r)))
    else:
        x = np.where(r == 0, 1.0, r) * 3.8317 / null
        b = np.where(r == 0, 1.0, (2 * j1(x) / x) ** 2)
    return b


def null(ctx, z, D):
    cm = ctx.mod('cosmo')
    return float(ctx.concrete(cm.z_to_cdist(z))) * float(ctx.concrete(cm.nu_to_wavel(cm.z_to_nu(z)))) / D * 1.22


@case(quick=[dict(n=n, kind=k) for n in (3, 4) for k in ('step', 'gaussian', 'sigmoid')] + [dict(n=4, kind='Bessel'), dict(n=5, kind='bessel')], thorough=[dict(n=n, kind=k) for n in (6, 7) for k in KINDS[:3]] + [dict(n=5, kind='sigmoid')])
def shape(ctx, n, kind):
    """The beam for any null: maximum one, the profile of its kind, decreasing from the centre inwards of the null, symmetric."""
    B = ctx.mod('primary_beam')
    box = 100.0
    if kind.lower() == 'bessel':
        nulls = [90.0, 20.0]
    else:
        nulls = [ctx.real('null', 30.0 if kind == 'gaussian' else 61.0, 150.0)]
    r = radius(n, box)
    for null in nulls:
        if kind == 'step':
            for v in set(np.round(r.reshape(-1), 9)):
                ctx.assume((null / 2 > v + 1e-6) | (null / 2 < v - 1e-6))
        got = B.circular_beam(n, 9.0, beam_func=kind, boxsize=box, l_null=null)
        ctx.check(got.shape == (n, n), 'shape')
        want = beam(ctx, n, box, null, kind)
        c = np.unravel_index(r.argmin(), r.shape)
        for i in np.ndindex(n, n):
            ctx.close(got[i] * want[c], want[i], 'profile', tol=1e-5)
            j = (i[1], i[0])
            ctx.close(got[i], got[j], 'symmetric', tol=1e-9)
        ctx.close(got[c], 1.0, 'maximum', tol=1e-9)
    if ctx.raises(lambda: B.circular_beam(n, 9.0, beam_func='square', boxsize=box)) is not True:
        ctx.check(False, 'unknown beams are refused')


@case(quick=[dict(kind=k) for k in ('step', 'Gaussian', 'bessel', 'sigmoid')])
def applied(ctx, kind):
    """Each slice is multiplied by the beam of its own redshift, whatever the frequency axis; images too."""
    from astropy import units as u
    B, V = ctx.mod('primary_beam'), ctx.mod('conv')
    N = ctx.np
    zs = [7.5, 9.0, 11.2]
    V.LB = 800.0
    a = ctx.array('a', (4, 4, 3), -5, 5)
    a0 = N.array(a)
    for D, d in ((40.0, dict()), (25.0, dict(D_station=25.0)), (30.0, dict(D_station=3000.0 * u.cm))):
        for box in (800.0, None):
            k = dict(beam_func=kind, boxsize=box, verbose=False, **d)
            ref = [ctx.mod('primary_beam').circular_beam(4, z, beam_func=kind, boxsize=800.0, l_null=null(ctx, z, D)) for z in zs]
            want = N.stack([a[:, :, i] * ref[i] for i in range(3)], axis=2)
            for z in (zs, np.array(zs)):
                ctx.close(B.primary_beam(a, z, **k), want, 'light cone', tol=1e-3)
            for ax in (0, 1):
                got = B.primary_beam(N.swapaxes(a, ax, 2), np.array(zs), nu_axis=ax, **k)
                ctx.close(got, N.swapaxes(want, ax, 2), 'other frequency axis', tol=1e-3)
            got = B.primary_beam(a, 9.0, **k)
            ctx.close(got, a * ref[1][:, :, None], 'coeval cube', tol=1e-3)
            ctx.close(B.primary_beam(a[:, :, 0], 9.0, **k), a[:, :, 0] * ref[1], 'image', tol=1e-3)
            f = B.circular_beam(4, 9.0, l_null=333.0, boxsize=800.0, beam_func=kind)
            ctx.close(B.primary_beam(a[:, :, 0], 9.0, l_null=333.0, **k), a[:, :, 0] * f, 'image with a given null', tol=1e-6)
            ctx.close(B.primary_beam(a, np.array(zs), l_null=333.0, **k), a * f[:, :, None], 'given null', tol=1e-6)
    ctx.close(a, a0, 'input not modified', tol=0)


@case(quick=[dict(z=8.0)], thorough=[dict(z=6.0), dict(z=15.0)])
def first_null(ctx, z):
    """1.22 wavelengths over the diameter, at the comoving distance."""
    B = ctx.mod('primary_beam')
    D = ctx.real('D', 5, 100)
    ctx.close(B.primary_beam_null(z, D_station=D) * D, null(ctx, z, 1.0), 'null', tol=1e-2 * 4)
