"""Topology: cubical complex, Euler characteristic and Betti numbers."""
import numpy as np
from symex.harness import case

STUBS = ['skimage.measure.label: breadth-first labelling on the symbolic mask', 'the Cython source is executed as Python (integer semantics of the typed loop variables do not matter at these sizes)',
         'numba: the undecorated function', 'shared memory and worker processes of the joblib variant: the same buffer, workers run one after another']
OUTSIDE = 'torch back end; compiled code generation of Cython and numba'


def cells(ctx, A):
    """Periodic cubical complex on the doubled grid by definition (0/1 per cell)."""
    A = A.astype(int) if hasattr(A, 'astype') else A
    out = {}
    for d in np.ndindex(2, 2, 2):
        m = 1
        for o in np.ndindex(*[x + 1 for x in d]):
            r = ctx.np.roll(A, tuple(-i for i in o), axis=(0, 1, 2)) > 0
            m = r if isinstance(m, int) else ctx.np.logical_and(m, r)
        out[d] = ctx.np.where(m, 1, 0)
    return out


def euler(ctx, A):
    c = cells(ctx, A)
    return sum((-1) ** sum(d) * c[d].sum() for d in c)


SHAPES = [dict(shape=(2, 2, 2)), dict(shape=(3, 2, 1)), dict(shape=(2, 3, 4)), dict(shape=(3, 3, 3))]


@case(quick=[dict(backend=b, **s) for b in ('python', 'cython') for s in SHAPES] + [dict(backend='joblib', shape=s, jobs=j) for s, j in (((2, 3, 2), 1), ((3, 2, 2), 2), ((2, 2, 2), 5))],
      thorough=[dict(backend=b, shape=(4, 4, 4)) for b in ('python', 'cython')] + [dict(backend='joblib', shape=(4, 3, 2), jobs=j) for j in (1, 3, 4, 9)])
def cubemap(ctx, backend, shape, jobs=1):
    """Every cell of the doubled grid carries its dimension + 1 iff all its
    corners are inside."""
    VB = ctx.mod('ViteBetti')
    A = ctx.array('A', shape, 0, 1, kind='int')
    if backend == 'python':
        C = VB.CubeMap(A)
    elif backend == 'cython':
        C = VB.CubeMap_cython(ctx.np.array(A, dtype=np.int32))
    else:
        C = VB.CubeMap_joblib(A, n_jobs=jobs)
    ctx.check(C.shape == tuple(2 * n for n in shape), 'shape')
    ref = cells(ctx, A)
    for d in ref:
        ctx.equal_int(C[d[0]::2, d[1]::2, d[2]::2], ref[d] * (sum(d) + 1), 'cells of type %s' % (d,))


@case(quick=[dict(shape=s, nb=nb) for s in ((2, 2, 2), (1, 2, 3), (3, 3, 3)) for nb in (4, 6, 26)], thorough=[dict(shape=(4, 3, 4), nb=nb) for nb in (6, 18)])
def euler_characteristic(ctx, shape, nb):
    """V - E + F - C of the thresholded field, every field, both back ends.  (The
    cells are first proved equal to the definition and then replaced by it.)"""
    t, VB = ctx.mod('topology'), ctx.mod('ViteBetti')
    x = ctx.array('x', shape, 0, 1)
    thr = 0.5
    if ctx.sym:
        def lemma(f):
            def g(A, *a, **k):
                C = f(A, *a, **k)
                r = cells(ctx, A)
                ctx.muted = True            # this assertion exists in the symbolic run only
                out = ctx.np.zeros(C.shape, dtype=int)
                for d in r:
                    ctx.equal_int(C[d[0]::2, d[1]::2, d[2]::2], r[d] * (sum(d) + 1), 'cells of type %s' % (d,))
                    out[d[0]::2, d[1]::2, d[2]::2] = ctx.np.where(r[d] > 0, sum(d) + 1, 0)
                ctx.muted = False
                return out
            return g
        for n in ('CubeMap', 'CubeMap_cython', 'CubeMap_numba', 'CubeMap_joblib'):
            if getattr(VB, n, None) is not None:
                setattr(VB, n, lemma(getattr(VB, n)))
    A = ctx.np.where(x > thr, 1, 0)
    if nb not in (4, 6):
        A = 1 - A
    ref = euler(ctx, A)
    for b, j in (('numpy', None), ('cython', None), ('numpy', 2)):
        chi = t.EulerCharacteristic(x, thres=thr, neighbors=nb, speed_up=b, verbose=False, n_jobs=j)
        ctx.equal_int(chi, ref, 'Euler characteristic (%s)' % b)
    ctx.equal_int(t.betti1(x, thres=thr, neighbors=nb, b0=3, b2=1, verbose=False), 4 - ref, 'given components and cavities are used')
    ctx.equal_int(t.betti1(x, thres=thr, neighbors=nb, b0=3, b2=1, chi=-2, verbose=False), 6, 'given Euler characteristic is used')


@case(quick=[dict(shape=(2, 2, 2)), dict(shape=(1, 2, 3)), dict(shape=(3, 3, 3), free=(0, 1, 4, 9, 13, 14, 22, 26), bg=0), dict(shape=(3, 3, 3), free=(0, 1, 4, 9, 13, 14, 22, 26), bg=1),
             dict(shape=(3, 4, 3), free=(5, 7, 16, 17, 19, 20, 31), bg=2)],
      thorough=[dict(shape=(4, 4, 4), free=(0, 3, 12, 15, 21, 22, 25, 42, 48, 63), bg=b) for b in (0, 1, 2)] + [dict(shape=(2, 2, 3))], weight=3)
def betti(ctx, shape, free=None, bg=0):
    """Components, cavities and tunnels; one path per topology of the free cells."""
    t = ctx.mod('topology')
    n = int(np.prod(shape))
    rest = [np.zeros(shape), np.ones(shape), (np.arange(n).reshape(shape) % 3 == 0).astype(float)][bg].reshape(-1)
    bits = [ctx.bool('b%d' % i) if free is None or i in free else bool(rest[i]) for i in range(n)]
    x = np.array([0.9 if bool(b) else 0.1 for b in bits]).reshape(shape)
    m = (x > 0.5).astype(int)
    x = ctx.const(x)
    for nb in (6, 26):
        b0, b2 = t.betti0(x, thres=0.5, neighbors=nb), t.betti2(x, thres=0.5, neighbors=nb)
        ctx.equal_int(b0, components(m, nb), 'number of components')
        ctx.equal_int(b2, components(1 - m, nb), 'number of cavities')
        b1 = t.betti1(x, thres=0.5, neighbors=nb, speed_up='numpy', verbose=False)
        ctx.equal_int(b0 - b1 + b2, euler(ctx, m if nb == 6 else 1 - m), 'alternating sum of the Betti numbers')


@case(quick=[dict(shape=(1, 1, 3)), dict(shape=(2, 1, 2))], thorough=[dict(shape=(2, 2, 2))])
def threshold(ctx, shape):
    """A cell belongs to the structure iff it exceeds the threshold, any values."""
    t = ctx.mod('topology')
    x = ctx.array('x', shape, -5, 5)
    thr = ctx.real('thr', -4, 4)
    m = np.array([bool(x[i] > thr) for i in np.ndindex(*shape)]).reshape(shape).astype(int)
    for nb in (4, 26):
        ctx.equal_int(t.betti0(x, thres=thr, neighbors=nb), components(m, nb), 'components above the threshold')
        ctx.equal_int(t.betti2(x, thres=thr, neighbors=nb), components(1 - m, nb), 'cavities below it')


def components(m, nb):
    """Connected components of a concrete mask (faces, or faces and edges)."""
    seen, n = set(), 0
    on = set(map(tuple, np.argwhere(m)))
    off = [d for d in np.ndindex(3, 3, 3) if 0 < sum(abs(i - 1) for i in d) <= (1 if nb in (4, 6) else 2)]
    for p in on:
        if p in seen:
            continue
        n += 1
        st = [p]
        seen.add(p)
        while st:
            q = st.pop()
            for d in off:
                r = tuple(i + j - 1 for i, j in zip(q, d))
                if r in on and r not in seen:
                    seen.add(r)
                    st.append(r)
    return n
