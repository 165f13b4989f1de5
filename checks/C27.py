"""SegU-Net segmentation: test-time augmentation around any slice predictor."""
import itertools
import numpy as np
from symex.harness import case

STUBS = ['the trained network: any slice predictor affine in its input, with the weights of each position free numbers or listed ones']
OUTSIDE = 'the trained network itself (tensorflow is not installed); cubes larger than listed; mean values within 1e-6 of 1/2'


class Net:
    """Slice predictor: weight * slice + bias by position in the slice (`fn(slice)`); shapes as the network has them."""

    def __init__(self, ctx, fn):
        self.ctx, self.fn, self.calls = ctx, fn, 0

    def predict(self, X, verbose=0):
        self.calls += 1
        self.ctx.check(X.ndim == 4 and X.shape[0] == 1 and X.shape[3] == 1, 'one slice with one channel')
        out = self.fn(X[0, :, :, 0])
        return out.reshape(1, X.shape[1], X.shape[2], 1)


def symmetries(n):
    """All distinct manipulations: flips of the first two axes after rotations about one axis, as index maps."""
    idx = np.arange(n ** 3).reshape(n, n, n)
    out = {}
    for fl in itertools.product((0, 1), repeat=2):
        a = idx
        if fl[0]:
            a = a[::-1]
        if fl[1]:
            a = a[:, ::-1]
        for ax in range(3):
            others = [i for i in range(3) if i != ax]
            for k in range(4):
                b = np.rot90(a, k, axes=others)
                out[tuple(b.reshape(-1))] = b
    return list(out.values())


def reference(N, x, fn, maps):
    """Every prediction, mapped back: all slices along all axes of all manipulated cubes."""
    n = x.shape[0]
    flat = [x[i] for i in np.ndindex(n, n, n)]
    preds = []
    for m in maps:
        c = np.empty((n, n, n), dtype=object)
        for i in np.ndindex(n, n, n):
            c[i] = flat[m[i]]
        for ax in range(3):
            p = [None] * n ** 3
            for j in range(n):
                sl = np.take(c, j, axis=ax)
                q = fn(N.array([[sl[a, b] for b in range(n)] for a in range(n)]))
                s = np.take(m, j, axis=ax)
                for a in range(n):
                    for b in range(n):
                        p[s[a, b]] = q[a, b]
            preds.append(p)
    return preds


def run(ctx, n, tta, fn, free=None):
    S, N = ctx.mod('segmentation'), ctx.np
    x = ctx.array('x', (n, n, n), -1, 2, free=free)
    x0 = N.array(x)
    seg = S.segunet21cm(tta=tta)
    net = Net(ctx, fn)
    seg.MODEL_LOADED = net
    maps = symmetries(n) if tta == 2 else [np.arange(n ** 3).reshape(n, n, n)]
    ctx.check(seg.NR_MANIP == len(maps), 'number of different manipulations')
    preds = reference(N, x, fn, maps)
    k = len(preds)
    mean = [sum(p[i] for p in preds) / k for i in range(n ** 3)]
    for m in mean:
        ctx.assume(((m > 0.5 + 1e-6) | (m < 0.5 - 1e-6)) & (m > -0.4) & (m < 1.4))
    got, err = seg.prediction(x)
    ctx.check(tuple(got.shape) == tuple(err.shape) == (n, n, n), 'shape')
    ctx.check(net.calls == n * k, 'one prediction per slice')
    for j, i in enumerate(np.ndindex(n, n, n)):
        ctx.check((got[i] == 1) == (mean[j] > 0.5), 'segmentation is the rounded mean')
        ctx.check((got[i] == 0) == (mean[j] < 0.5), 'segmentation is the rounded mean')
        ctx.close(err[i] ** 2, sum((p[j] - mean[j]) ** 2 for p in preds) / k, 'error is the deviation', tol=1e-5)
        ctx.ge(err[i], 0, 'error')
    ctx.close(x, x0, 'input not modified', tol=0)


@case(quick=[dict(n=2, tta=1), dict(n=2, tta=2)], thorough=[dict(n=3, tta=1)])
def position(ctx, n, tta):
    """A predictor whose weights depend on the position in the slice: predictions are mapped back to their cells."""
    w = 0.2 + 0.1 * np.arange(n * n).reshape(n, n)
    run(ctx, n, tta, lambda s: s * w + 0.05 * w[::-1])


@case(quick=[dict(n=3, free=[0, 5, 13])], thorough=[dict(n=3, free=[1, 7, 12, 20, 26]), dict(n=4, free=[3])])
def position_large(ctx, n, free):
    w = 0.2 + 0.1 * np.arange(n * n).reshape(n, n) / n
    run(ctx, n, 2, lambda s: s * w + 0.05 * w[::-1], free=free)


@case(quick=[dict(n=2, tta=1), dict(n=2, tta=2)], thorough=[dict(n=3, tta=2)])
def pointwise(ctx, n, tta):
    """A predictor that acts on each cell alike is unaffected by augmentation: no error, and the rounded prediction."""
    S, N = ctx.mod('segmentation'), ctx.np
    a, b = ctx.real('a', 0.2, 1.0), ctx.real('b', -0.2, 0.2)
    x = ctx.array('x', (n, n, n), -1, 1)
    for i in np.ndindex(n, n, n):
        v = a * x[i] + b
        ctx.assume(((v > 0.5 + 1e-6) | (v < 0.5 - 1e-6)) & (v > -0.4) & (v < 1.4))
    seg = S.segunet21cm(tta=tta, verbose=False)
    seg.MODEL_LOADED = Net(ctx, lambda s: s * a + b)
    got, err = seg.prediction(x)
    for i in np.ndindex(n, n, n):
        ctx.check((got[i] == 1) == (a * x[i] + b > 0.5), 'rounded prediction')
        ctx.close(err[i], 0.0, 'no error', tol=1e-6)
