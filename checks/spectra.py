"""Reference definitions shared by the power-spectrum checks."""
import itertools
import numpy as np


def dims_of(shape, dims):
    return [float(dims)] * len(shape) if np.ndim(dims) == 0 else [float(d) for d in dims]


def freqs(n):
    """Integer frequencies in the order of a centred spectrum."""
    return [i - n // 2 for i in range(n)]


def mode_list(shape):
    return list(itertools.product(*[freqs(n) for n in shape]))


def kvec(shape, dims):
    d = dims_of(shape, dims)
    return np.array([[2 * np.pi * m / L for m, L in zip(mm, d)] for mm in mode_list(shape)])


def ft(ctx, f, shape):
    """(re, im) of the discrete Fourier transform by definition, one per mode."""
    pos = np.array(list(np.ndindex(*shape)), float)
    flat = f.reshape(-1)
    out = []
    for mm in mode_list(shape):
        ph = -2 * np.pi * (pos / np.array(shape, float)) @ np.array(mm, float)
        c, s = np.cos(ph), np.sin(ph)
        c[abs(c) < 1e-15] = 0
        s[abs(s) < 1e-15] = 0
        out.append(((flat * ctx.const(c)).sum(), (flat * ctx.const(s)).sum()))
    return out


def ps_ref(ctx, f, shape, dims, g=None):
    """Reference (cross) spectrum: list over modes in centred order."""
    V = float(np.prod(dims_of(shape, dims)))
    N = float(np.prod(shape))
    a = ft(ctx, f, shape)
    b = a if g is None else ft(ctx, g, shape)
    return [(x[0] * y[0] + x[1] * y[1]) * (V / N ** 2) for x, y in zip(a, b)]
