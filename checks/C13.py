"""Connected regions: friends-of-friends labels, sizes, percolation."""
import itertools
import numpy as np
from symex.harness import case

STUBS = ['skimage.morphology.label: the compiled function, applied to the mask of the path (one path per mask); its result is compared with an independent flood fill']
OUTSIDE = 'grids larger than listed (cells beyond the free ones have a fixed pattern)'


def offsets(dim, conn):
    return [o for o in itertools.product((-1, 0, 1), repeat=dim) if 0 < sum(abs(i) for i in o) <= conn]


def flood(m, conn):
    """Labels 1..n of the connected components of a concrete mask, in scan order."""
    lab = np.zeros(m.shape, int)
    n = 0
    for p in np.ndindex(*m.shape):
        if not m[p] or lab[p]:
            continue
        n += 1
        st = [p]
        lab[p] = n
        while st:
            q = st.pop()
            for o in offsets(m.ndim, conn):
                r = tuple(i + j for i, j in zip(q, o))
                if all(0 <= i < s for i, s in zip(r, m.shape)) and m[r] and not lab[r]:
                    lab[r] = n
                    st.append(r)
    return lab


def field(ctx, shape, free, strict):
    """A field whose cells are free reals (or fixed), its threshold, its mask."""
    n = int(np.prod(shape))
    free = range(n) if free is None else free
    thr = ctx.real('xth', -3, 5)
    x = ctx.array('x', shape, -4, 6, free=None if len(free) == n else list(free), rest=None)
    m = np.array([bool((x[p] > thr) if strict else (x[p] >= thr)) for p in np.ndindex(*shape)]).reshape(shape)
    return x, thr, m


def same_partition(ctx, out, m, conn, label):
    """out has one label per component of m, in some order, and 0 elsewhere."""
    ref = flood(m, conn)
    out = np.array([int(out[p]) for p in np.ndindex(*m.shape)]).reshape(m.shape)
    ctx.check(bool(np.all((out == 0) == ~m)), label + ': exactly the cells of interest are labelled')
    pairs = set(zip(out[m].tolist(), ref[m].tolist()))
    ctx.check(len(pairs) == len({a for a, _ in pairs}) == len({b for _, b in pairs}), label + ': one label per connected region')
    ctx.check({a for a, _ in pairs} == set(range(1, ref.max() + 1)), label + ': labels are consecutive')
    return out


Q = [dict(shape=(2, 2, 2), conn=c) for c in (1, 2, 3)] + [dict(shape=(2, 4), conn=1), dict(shape=(2, 4), conn=2), dict(shape=(3, 1, 2), conn=1), dict(shape=(7,), conn=1)]


@case(quick=Q, thorough=[dict(shape=(3, 3), conn=1), dict(shape=(3, 3), conn=2), dict(shape=(2, 5), conn=1), dict(shape=(5, 2), conn=2), dict(shape=(2, 2, 2), conn=3), dict(shape=(1, 3, 3), conn=3), dict(shape=(3, 2, 2), conn=1, free=None)])
def partition(ctx, shape, conn, free=None):
    x, thr, m = field(ctx, shape, free, False)
    x0 = x.copy()
    out, sizes = ctx.mod('bubble_stats').fof(x, xth=thr, connectivity=conn)
    out = same_partition(ctx, out, m, conn, 'fof')
    ctx.equal_int(sizes, np.array([(out == i).sum() for i in range(1, out.max() + 1)], int), 'sizes of the regions in label order')
    ctx.close(x, x0, 'input not modified')


@case(quick=[dict(shape=(2, 2, 2)), dict(shape=(2, 4)), dict(shape=(6,)), dict(shape=(1, 3, 2))], thorough=[dict(shape=(3, 3)), dict(shape=(5, 2)), dict(shape=(3, 2, 2))])
def search(ctx, shape):
    """The package's own search: face neighbours, strictly above the threshold."""
    x, thr, m = field(ctx, shape, None, True)
    out, sizes = ctx.mod('Friends_of_Friends').FoF_search(x, thr)
    out = same_partition(ctx, out, m, 1, 'FoF_search')
    ctx.equal_int(sizes, np.array([(out == i).sum() for i in range(1, out.max() + 1)], int), 'sizes of the groups in label order')


@case(quick=[dict(shape=(2, 2, 2), conn=1), dict(shape=(3, 3), conn=1), dict(shape=(2, 4), conn=2)], thorough=[dict(shape=(3, 1, 3), conn=2), dict(shape=(3, 2, 2), conn=1), dict(shape=(5, 2), conn=1)])
def percolation(ctx, shape, conn):
    """The size of the largest cluster that reaches its own periodic image, else 0."""
    x, thr, m = field(ctx, shape, None, False)
    lab = flood(m, conn)
    best = 0
    for i in range(1, lab.max() + 1):
        c = lab == i
        if any((c.take(0, axis=a) & c.take(-1, axis=a)).any() for a in range(c.ndim)):
            best = max(best, int(c.sum()))
    ctx.equal_int(ctx.mod('percolation').find_percolation_cluster(x, xth=thr, connectivity=conn), best, 'size of the percolation cluster')


@case(quick=[dict(n=3, bins=4), dict(n=2, bins=3)], thorough=[dict(n=4, bins=5)])
def size_distributions(ctx, n, bins):
    """Histograms built from the region sizes count every region once."""
    B = ctx.mod('bubble_stats')
    s = np.array([int(v) for v in ctx.array('s', (n,), 1, 5, kind='int')])
    if len(set(s.tolist())) == 1:
        s = np.append(s, 7)
    v, dv, r, dr = B.dist_from_volumes(ctx.const(s), resolution=2.0, bins=bins)
    ctx.close(v, 10 ** ctx.const(np.linspace(np.log10(s.min()), np.log10(s.max()), bins + 1)) * 8.0, 'volume bins in physical units', tol=1e-9, rtol=1e-9)
    R = (s * 3 / 4 / np.pi) ** (1 / 3.)
    ctx.close(r, ctx.const(10 ** np.linspace(np.log10(R.min()), np.log10(R.max()), bins + 1)) * 2.0, 'radius bins in physical units', tol=1e-9, rtol=1e-9)
    h = np.histogram(np.log10(s), bins=bins)[0] / len(s)
    low = h[h > 0].min() / 1000
    ctx.close(dv, ctx.const(np.append(np.where(h > 0, h, low), low)), 'fraction of regions per volume bin', tol=1e-9)
    h = np.histogram(np.log10(R), bins=bins)[0] / len(s)
    ctx.close(dr, ctx.const(np.append(h[h > 0].min() / 1000, h)), 'fraction of regions per radius bin', tol=1e-9)
    for norm, tot in (('ionized', None), ('box', 10.0 ** 3)):
        xx, zz, dummy = B.plot_fof_sizes(ctx.const(s), bins=bins, boxsize=10.0, normalize=norm)
        e = 10 ** np.linspace(np.log10(s.min()), np.log10(s.max()), bins + 1)
        y = np.histogram(np.log10(s), bins=bins)[0] * e[:-1]
        y = y / (y.sum() if tot is None else tot)
        low = y[y > 0].min() / 10
        ctx.close(zz, ctx.const(np.append(np.where(y > 0, y, low), low)), 'size-weighted distribution (%s)' % norm, tol=1e-9)
