"""Identification of regions by thresholds of the data."""
import itertools

import numpy as np
from symex.harness import case

STUBS = ['skimage.filters.threshold_triangle: an unknown number per slice (the slices it is asked for are compared)',
         'sklearn.cluster.KMeans: any split of the cells into clusters that are intervals of the values, with any order of the labels; the centres are the means']
OUTSIDE = 'which clusters and thresholds scikit-learn and scikit-image find; the threshold of histograms with one peak, bins chosen by rule; grids larger than listed; cells within 1e-6 of a threshold'


def apart(ctx, a, t):
    for i in np.ndindex(*a.shape):
        ctx.assume((a[i] > t + 1e-6) | (a[i] < t - 1e-6))


@case(quick=[dict(shape=(2, 2, 2)), dict(shape=(5,))], thorough=[dict(shape=(3, 3, 3))])
def fixed(ctx, shape):
    """Cells at or below (or at or above) the threshold."""
    R = ctx.mod('identify_regions')
    a = ctx.array('a', shape, -5, 5)
    t = ctx.real('t', -5, 5)
    lo, hi, d = R.bubbles_from_fixed_threshold(a, threshold=t), R.bubbles_from_fixed_threshold(a, threshold=t, upper_lim=False), R.bubbles_from_fixed_threshold(a)
    for i in np.ndindex(*shape):
        ctx.check((lo[i] == True) == (a[i] <= t), 'below')
        ctx.check((hi[i] == True) == (a[i] >= t), 'above')
        ctx.check((d[i] == True) == (a[i] <= 0), 'default')


@case(quick=[dict(shape=(2, 2, 3))], thorough=[dict(shape=(3, 3, 2))])
def triangle(ctx, shape):
    """The threshold of the whole cube, or the median of those of the slices along the given axis."""
    R, N = ctx.mod('identify_regions'), ctx.np
    a = ctx.array('a', shape, -5, 5)
    a0 = N.array(a)
    seen = []
    th = ctx.array('th', (max(shape) + 1,), -5, 5)

    def tri(x, nbins=256):
        seen.append((x, nbins))
        return th[len(seen) - 1]
    R.threshold_triangle = tri
    apart(ctx, a, th[0])
    for up in (True, False):
        del seen[:]
        got = R.bubbles_from_triangle3D(a, upper_lim=up, nbins=100)
        ctx.check(len(seen) == 1 and seen[0][1] == 100 and seen[0][0].shape == shape, 'asked once')
        for i in np.ndindex(*shape):
            ctx.close(seen[0][0][i], a0[i], 'cube', tol=1e-12)
            ctx.check((got[i] == True) == ((a[i] <= th[0]) if up else (a[i] >= th[0])), 'cube')


@case(quick=[dict(shape=(2, 2, 3), axis=x) for x in (0, 1, 2)] + [dict(shape=(3, 2, 2), axis=-3), dict(shape=(2, 3, 1), axis=-2), dict(shape=(2, 1, 3), axis=-1)], thorough=[dict(shape=(2, 3, 2), axis=-2), dict(shape=(2, 2, 4), axis=-1), dict(shape=(3, 3, 1), axis=0)])
def triangle_slices(ctx, shape, axis):
    R, N = ctx.mod('identify_regions'), ctx.np
    a = ctx.array('a', shape, -5, 5)
    k = shape[axis]
    th = ctx.array('th', (k,), -5, 5)
    seen = []

    def tri(x, nbins=256):
        seen.append((x, nbins))
        return th[len(seen) - 1]
    R.threshold_triangle = tri
    s = N.sort(th)
    med = (s[(k - 1) // 2] + s[k // 2]) / 2
    apart(ctx, a, med)
    for up in (True, False):
        del seen[:]
        got = R.bubbles_from_triangle2D(a, upper_lim=up, nbins=64, loc_axis=axis)
        ctx.check(len(seen) == k and all(n == 64 for _, n in seen), 'one threshold per slice')
        for j in range(k):
            sl = a.take(j, axis=axis) if hasattr(a, 'take') else N.take(a, j, axis=axis)
            ctx.check(tuple(seen[j][0].shape) == tuple(sl.shape), 'slice shape')
            for i in np.ndindex(*sl.shape):
                ctx.close(seen[j][0][i], sl[i], 'slice', tol=1e-12)
        for i in np.ndindex(*shape):
            ctx.check((got[i] == True) == ((a[i] <= med) if up else (a[i] >= med)), 'median of the thresholds')


def kmeans(ctx, N, ranks, asked):
    """A stand-in of KMeans: clusters are intervals of the values (`ranks(k)`), numbered in any order."""
    class KM:
        def __init__(self, n_clusters=8, **k):
            self.k = n_clusters
            asked.append(self)

        def fit(self, X):
            self.X = X
            k = self.k
            self.rank = g = ranks(k)
            perm = ctx.pick('perm%d' % len(asked), list(itertools.permutations(range(k))))
            self.labels_ = np.array([perm[r] for r in g])
            c = [None] * k
            for r in range(k):
                s = [X[i, 0] for i in range(len(g)) if g[i] == r]
                c[perm[r]] = sum(s) / len(s)
            self.cluster_centers_ = N.array(c).reshape(k, 1)
            return self

        def fit_predict(self, X):
            return self.fit(X).labels_

        def predict(self, X):
            return self.labels_
    return KM


@case(quick=[dict(shape=(5,), k=3), dict(shape=(2, 2, 1), k=3), dict(shape=(2, 2), k=2), dict(shape=(5,), k=2)], thorough=[dict(shape=(2, 3), k=3), dict(shape=(1, 6), k=2), dict(shape=(7,), k=2)])
def clusters(ctx, shape, k):
    """The cells of the lowest (or highest) cluster."""
    R, N = ctx.mod('identify_regions'), ctx.np
    n = int(np.prod(shape))
    up = ctx.pick('up', [True, False])
    order = ctx.pick('order', [list(range(n)), list(range(n))[::-1], sorted(range(n), key=lambda i: (i * 3) % n if n % 3 else (i * 5) % n)])
    cuts = ctx.pick('cuts', list(itertools.combinations(range(1, n), k - 1)))
    a = ctx.array('a', shape, -5, 5)
    f = a.reshape(-1)
    # cell order[i] has the i-th smallest value
    for i in range(n - 1):
        ctx.assume(f[order[i]] < f[order[i + 1]] - 1e-5)
    rank = [None] * n
    for i, o in enumerate(order):
        rank[o] = sum(i >= c for c in cuts)
    asked = []
    R.KMeans = kmeans(ctx, N, lambda _: rank, asked)
    got = R.bubbles_from_kmeans(a, upper_lim=up, n_clusters=k)
    ctx.check(len(asked) == 1 and asked[-1].k == k, 'clusters asked for')
    for i in range(n):
        ctx.close(asked[-1].X[i, 0], f[i], 'values', tol=1e-12)
    ctx.check(tuple(got.shape) == tuple(shape), 'shape')
    want = 0 if up else k - 1
    for i, p in enumerate(np.ndindex(*shape)):
        ctx.close(got[p], 1.0 if rank[i] == want else 0.0, 'cells of the cluster', tol=1e-9)


@case(quick=[dict(n=4, values=1), dict(n=4, values=2)], thorough=[dict(n=6, values=2)])
def few_values(ctx, n, values):
    """One value: one region; two values: two clusters, whatever was asked for."""
    R, N = ctx.mod('identify_regions'), ctx.np
    lo, hi = ctx.real('lo', -5, 5), ctx.real('hi', -5, 5)
    ctx.assume(lo < hi - 1e-5)
    which = [False, True] + [bool(ctx.bool('w%d' % i)) for i in range(2, n)]
    a = N.array([hi if w and values == 2 else lo for w in which])
    asked = []
    R.KMeans = kmeans(ctx, N, lambda _: [int(w) for w in which], asked)
    up = ctx.pick('up', [True, False])
    got = R.bubbles_from_kmeans(a, upper_lim=up)
    if values == 1:
        ctx.check(not asked and all(bool(got[i] == 1) for i in range(n)), 'one region')
        return
    ctx.check(asked[-1].k == 2, 'two clusters')
    for i in range(n):
        ctx.close(got[i], 1.0 if which[i] != up else 0.0, 'cells of the cluster', tol=1e-9)


@case(quick=[dict(bins=20)], thorough=[dict(bins=7)])
def slic(ctx, bins):
    """SLIC bubbles are the stitched superpixels of the SLIC labels."""
    R, N = ctx.mod('identify_regions'), ctx.np
    S = ctx.mod('superpixels')
    lab = np.array([[4, 1, 1], [4, 2, 1]])
    a = ctx.array('a', lab.shape, -5, 5)
    t = ctx.real('t', -5, 5)
    calls = []

    def slic(x, **k):
        calls.append((x, k))
        return lab
    S.slic = slic

    otsu = []

    def thr(x):
        otsu.append(x)
        return t
    S.threshold_otsu = thr
    # two peaks of the histogram: the threshold is Otsu's
    S.argrelextrema = lambda *k, **q: (np.array([0, 2]),)
    m = [sum(a[tuple(i)] for i in np.argwhere(lab == v)) / int((lab == v).sum()) for v in np.unique(lab)]
    for i, v in enumerate(m):
        ctx.assume((v > t + 1e-6) | (v < t - 1e-6))
        for j in range(i):
            ctx.assume(m[j] > v + 1e-3)
    got = R.bubbles_from_slic(a, n_segments=17, bins=bins, verbose=False)
    ctx.check(len(calls) == 1 and calls[0][1].get('n_segments') == 17, 'number of segments')
    for i in np.ndindex(*lab.shape):
        ctx.close(calls[0][0][i], a[i], 'data', tol=1e-12)
        k = list(np.unique(lab)).index(lab[i])
        ctx.check((got[i] == True) == (m[k] < t), 'stitched superpixels')
    for i in range(3):
        ctx.close(otsu[0][i], m[i], 'threshold of the means', tol=1e-9)
