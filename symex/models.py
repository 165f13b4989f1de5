"""Models of the compiled library functions the package calls.

 * discrete Fourier transforms: the defining sum, with exact twiddle factors
   where they are 0, +-1/2, +-1 and double-precision ones elsewhere;
 * linear operators (scipy.ndimage / signal / integrate / interpolate): the
   matrix of the real library function, obtained by applying it to unit
   impulses (linear in the data argument by specification);
 * connected-component labelling & co. on symbolic masks: the mask is
   concretised by forking, then the real library function is applied.
"""
import itertools
import math

import numpy as np
import z3

from . import core, elem
from .core import Sym, SymBool, SymC, Unsupported, is_sym
from .sarray import (SymArray, as_sym, base, cast_scalar, flat, from_obj, has_sym, has_sym_strict, kind_of, linear_apply,
                     lower, lower_deep, norm_index, obj_array, sum_list, umap, wrap, wrap_out, wrap_real, zeros, lincomb, maxkind, a_interp, KDT)

# ------------------------------------------------------------------------ FFT
_TW = {}


def twiddles(n, sign):
    key = (n, sign)
    if key not in _TW:
        def ex(v):
            r = round(v * 2) / 2
            return r if abs(v - r) < 1e-12 else v
        _TW[key] = [(ex(math.cos(2 * math.pi * m / n)), sign * ex(math.sin(2 * math.pi * m / n))) for m in range(n)]
    return _TW[key]


def dft_axis(b, axis, sign, n=None, scale=1.0):
    """DFT of an object array along one axis, out[k] = scale*sum_j x[j] w^(sign jk)."""
    t = np.moveaxis(b, axis, -1)
    m = t.shape[-1]
    if n is None:
        n = m
    out = np.empty(t.shape[:-1] + (n,), object)
    tw = twiddles(n, sign)
    for p in np.ndindex(*t.shape[:-1]):
        line = list(t[p])[:n]
        re = [elem.cre(v) for v in line]
        im = [elem.cim(v) for v in line]
        isreal = all((not is_sym(v)) and v == 0 for v in im)
        for k in range(n):
            cs = [tw[(j * k) % n] for j in range(len(line))]
            if isreal:
                r = lincomb([c[0] * scale for c in cs], re)
                i = lincomb([c[1] * scale for c in cs], re)
            else:
                r = lincomb([c[0] * scale for c in cs] + [-c[1] * scale for c in cs], re + im)
                i = lincomb([c[1] * scale for c in cs] + [c[0] * scale for c in cs], re + im)
            out[p + (k,)] = elem.mkc(r, i)
    return np.moveaxis(out, -1, axis)


def _norm_scale(n, inverse, norm):
    if norm in (None, 'backward'):
        return 1.0 / n if inverse else 1.0
    if norm == 'forward':
        return 1.0 if inverse else 1.0 / n
    return 1.0 / math.sqrt(n)


def _axes_s(a, s, axes, default_all=True, last=None):
    if s is not None and not isinstance(s, (int, np.integer)):
        s = [None if v is None else int(v) for v in lower_deep(list(s) if not isinstance(s, np.ndarray) else s)]
    if axes is None:
        if s is not None:
            axes = list(range(a.ndim - len(s), a.ndim))
        else:
            axes = list(range(a.ndim)) if last is None else list(range(a.ndim - last, a.ndim))
    axes = [int(x) for x in lower_deep(list(axes) if not isinstance(axes, np.ndarray) else axes)]
    if s is None:
        s = [a.shape[x] for x in axes]
    s = [a.shape[x] if (v is None or v == -1) else v for v, x in zip(s, axes)]
    return axes, s


def c2c(a, s, axes, inverse, norm):
    a = as_sym(a)
    b = base(a)
    for ax, n in reversed(list(zip(axes, s))):
        b = dft_axis(b, ax, 1 if inverse else -1, n, _norm_scale(n, inverse, norm))
    return _c(b)


def _c(b):
    out = np.empty(b.shape, object)
    fo, fb = out.reshape(-1), b.reshape(-1)
    for i in range(fb.size):
        fo[i] = cast_scalar(fb[i], 'c')
    return wrap(out, 'c')


def r2c(a, s, axes, norm):
    a = as_sym(a)
    if a._k == 'c':
        a = a.real
    b = dft_axis(base(a), axes[-1], -1, s[-1], _norm_scale(s[-1], False, norm))
    sl = [slice(None)] * b.ndim
    sl[axes[-1]] = slice(0, s[-1] // 2 + 1)
    b = b[tuple(sl)]
    return c2c(_c(b), s[:-1], axes[:-1], False, norm)


def c2r(a, s, axes, norm):
    a = as_sym(a)
    a = c2c(a, s[:-1], axes[:-1], True, norm)
    n = s[-1]
    t = np.moveaxis(base(a), axes[-1], -1)
    h = n // 2 + 1
    full = np.empty(t.shape[:-1] + (n,), object)
    for p in np.ndindex(*t.shape[:-1]):
        line = list(t[p])[:h] + [0.0] * max(0, h - t.shape[-1])
        for k in range(n):
            if k < h:
                v = line[k]
                if k == 0 or (n % 2 == 0 and k == n // 2):
                    v = elem.cre(v)
                full[p + (k,)] = v
            else:
                full[p + (k,)] = elem.conjugate(line[n - k])
    out = dft_axis(full, -1, 1, n, _norm_scale(n, True, norm))
    out = np.moveaxis(umap(elem.cre, out), -1, axes[-1])
    f = np.empty(out.shape, object)
    f[...] = out
    return wrap(f, 'f')


def fft_function(name, args, kw, lib='numpy'):
    args = list(args)
    kw = {k: v for k, v in kw.items() if k not in ('overwrite_x', 'workers', 'plan', 'out')}
    a = args[0] if args else kw.pop('x', kw.pop('a', None))
    args = args[1:]
    if name in ('fftshift', 'ifftshift'):
        a = as_sym(a)
        axes = args[0] if args else kw.get('axes')
        f = getattr(np.fft, name)
        return wrap(f(base(a), axes=None if axes is None else _intdeep(axes)), a._k)
    if not has_sym_strict(a) and name not in ():
        real = getattr(np.fft, name) if lib == 'numpy' else getattr(lib, name)
        return wrap_out(real(lower_deep(a if not isinstance(a, (list, tuple)) else list(a)), *lower_deep(args), **lower_deep(kw)))
    a = as_sym(a)
    if name in ('fft', 'ifft', 'rfft', 'irfft', 'hfft', 'ihfft'):
        n = args[0] if args else kw.get('n')
        axis = args[1] if len(args) > 1 else kw.get('axis', -1)
        norm = args[2] if len(args) > 2 else kw.get('norm')
        axis = int(axis) % a.ndim
        if name == 'irfft':
            n = 2 * (a.shape[axis] - 1) if n is None else int(n)
            return c2r(a, [n], [axis], norm)
        n = a.shape[axis] if n is None else int(n)
        if name == 'rfft':
            return r2c(a, [n], [axis], norm)
        if name in ('fft', 'ifft'):
            return c2c(a, [n], [axis], name == 'ifft', norm)
        raise Unsupported(name)
    s = args[0] if args else kw.get('s', kw.get('shape'))
    axes = args[1] if len(args) > 1 else kw.get('axes')
    norm = args[2] if len(args) > 2 else kw.get('norm')
    last = 2 if name.endswith('2') else None
    if name.endswith('2') and axes is None:
        axes = (-2, -1)
    if name in ('irfftn', 'irfft2'):
        if s is None:
            ax, _ = _axes_s(a, None, axes, last=last)
            s = [a.shape[x] for x in ax]
            s[-1] = 2 * (a.shape[ax[-1]] - 1)
            axes = ax
        axes, s = _axes_s(a, s, axes, last=last)
        return c2r(a, s, [x % a.ndim for x in axes], norm)
    axes, s = _axes_s(a, s, axes, last=last)
    axes = [x % a.ndim for x in axes]
    if name in ('fftn', 'fft2'):
        return c2c(a, s, axes, False, norm)
    if name in ('ifftn', 'ifft2'):
        return c2c(a, s, axes, True, norm)
    if name in ('rfftn', 'rfft2'):
        return r2c(a, s, axes, norm)
    raise Unsupported('fft.' + name)


def _intdeep(x):
    if isinstance(x, (tuple, list, np.ndarray)):
        return tuple(int(v) for v in lower_deep(x))
    return int(x)


# ------------------------------------------------------------ linear operators
def linear_model(real, pos=0, name=None):
    """Function linear in positional argument `pos` (or keyword `name`)."""
    def g(*args, **kw):
        args = list(args)
        if len(args) > pos:
            x = args[pos]

            def f(z):
                aa = lower_deep(args[:pos]) + [z] + lower_deep(args[pos + 1:])
                return real(*aa, **lower_deep(kw))
        else:
            x = kw[name]

            def f(z):
                k2 = lower_deep({a: b for a, b in kw.items() if a != name})
                k2[name] = z
                return real(*lower_deep(args), **k2)
        out = kw.pop('output', None)
        xs = as_sym(x)
        if out is not None and isinstance(out, SymArray):
            out[...] = linear_apply(f, xs if xs._k in 'fc' else xs.astype(float))
            return None
        lx = lower(xs)
        if lx is not None:
            if out is not None:
                kw['output'] = lower_deep(out)
            return wrap_out(f(lx))
        if xs._k in 'bi':
            # integer input: ndimage casts its output to the input dtype
            if getattr(real, '__module__', '').startswith('scipy.ndimage'):
                return linear_apply(f, xs.astype(float)).astype(int) if xs._k == 'i' else _unsup()
            xs = xs.astype(float)
        return linear_apply(f, xs)
    g.__name__ = getattr(real, '__name__', 'linear')
    return g


def _unsup():
    raise Unsupported('boolean input of a linear filter')


def bilinear_model(real, direct=None):
    """Convolution-like: linear in either of the two first arguments."""
    def g(a, b, *args, **kw):
        a, b = as_sym(a), as_sym(b)
        la, lb = lower(a), lower(b)
        ar, k2 = lower_deep(list(args)), lower_deep(kw)
        if lb is not None and la is not None:
            return wrap_out(real(la, lb, *ar, **k2))
        if lb is not None:
            return linear_apply(lambda z: real(z, lb, *ar, **k2), a if a._k in 'fc' else a.astype(float))
        if la is not None:
            return linear_apply(lambda z: real(la, z, *ar, **k2), b if b._k in 'fc' else b.astype(float))
        # both symbolic: sum over the impulses of the second argument
        fb = list(base(b).reshape(-1))
        tot = None
        for i, v in enumerate(fb):
            if not is_sym(v) and v == 0:
                continue
            u = np.zeros(b.size)
            u[i] = 1.0
            t = linear_apply(lambda z: real(z, u.reshape(b.shape), *ar, **k2), a) * v
            tot = t if tot is None else tot + t
        return tot
    return g


def direct_convolve(mode_default='full'):
    def g(a, b, mode=mode_default, method='auto', axes=None):
        """Exact discrete convolution of the definition (fftconvolve)."""
        from scipy import signal
        a, b = as_sym(a), as_sym(b)
        la, lb = lower(a), lower(b)
        if la is not None and lb is not None:
            return wrap_out(signal.fftconvolve(la, lb, mode, axes))
        if axes is not None:
            return bilinear_model(signal.fftconvolve)(a, b, mode, axes)
        if a.ndim != b.ndim:
            raise ValueError('in1 and in2 should have the same dimensionality')
        shp = tuple(x + y - 1 for x, y in zip(a.shape, b.shape))
        acc = {}
        for p in np.ndindex(*a.shape):
            va = base(a)[p]
            if not is_sym(va) and va == 0:
                continue
            for q in np.ndindex(*b.shape):
                vb = base(b)[q]
                if not is_sym(vb) and vb == 0:
                    continue
                acc.setdefault(tuple(i + j for i, j in zip(p, q)), []).append(elem.multiply(va, vb))
        full = zeros(shp, maxkind(a._k, b._k, 'f'))
        for p, vs in acc.items():
            full[p] = flat(sum_list(vs))
        if mode == 'full':
            return full
        if mode == 'same':
            tgt = a.shape
        elif mode == 'valid':
            tgt = tuple(x - y + 1 for x, y in zip(a.shape, b.shape))
        else:
            raise ValueError('acceptable mode flags are valid, same, or full')
        sl = tuple(slice((f - t) // 2, (f - t) // 2 + t) for f, t in zip(shp, tgt))
        return full[sl].copy()
    return g


def fork_model(real, *poss):
    """Concretise (fork on) the symbolic arguments, then the real function."""
    def conc(x):
        if isinstance(x, SymArray):
            lx = lower(x)
            if lx is not None:
                return lx
            if x._k == 'b':
                return norm_index(x)
            if x._k == 'i':
                return norm_index(x)
            raise Unsupported('%s of symbolic reals' % getattr(real, '__name__', real))
        if isinstance(x, Sym) and x.isint:
            return x.__index__()
        if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
            return type(x)(conc(v) for v in x)
        return lower_deep(x)

    def g(*args, **kw):
        return wrap_out(real(*[conc(a) for a in args], **{k: conc(v) for k, v in kw.items()}))
    g.__name__ = getattr(real, '__name__', 'fork')
    return g


# ------------------------------------------------------------- interpolation
class Interp1d:
    """scipy.interpolate.interp1d with symbolic values (concrete abscissae) or
    symbolic query points (linear/nearest kinds)."""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        self.x, self.y = as_sym(x), as_sym(y)
        self.kind, self.axis = kind, axis
        self.be, self.fv = bounds_error, fill_value

    def __call__(self, xq):
        from scipy import interpolate
        lx, ly = lower(self.x), lower(self.y)
        xs = as_sym(xq)
        lq = lower(xs)
        if lx is not None and lq is not None:
            if ly is not None:
                return self._ret(interpolate.interp1d(lx, ly, kind=self.kind, axis=self.axis, bounds_error=self.be,
                                                      fill_value=lower_deep(self.fv))(lq))
            fv = self.fv
            if isinstance(fv, str):
                f = lambda y: interpolate.interp1d(lx, y, kind=self.kind, axis=self.axis, bounds_error=self.be, fill_value=fv)(lq)
                return self._ret(linear_apply(f, self.y))
            lo, hi = lx.min(), lx.max()
            out = (lq < lo) | (lq > hi)
            if out.any():
                if self.be or (self.be is None and isinstance(fv, float) and fv != fv):
                    raise ValueError('A value in x_new is outside the interpolation range.')
                if self.y.ndim != 1:
                    raise Unsupported('interp1d fill for n-d data')
                fl, fh = fv if isinstance(fv, tuple) else (fv, fv)
                f = lambda y: interpolate.interp1d(lx, y, kind=self.kind, bounds_error=False, fill_value=0.0)(lq)
                r = as_sym(linear_apply(f, self.y)).copy()
                r = r.reshape(-1)
                q = lq.reshape(-1)
                for i in range(q.size):
                    if q[i] < lo:
                        r[i] = fl
                    elif q[i] > hi:
                        r[i] = fh
                return self._ret(r.reshape(lq.shape))
            f = lambda y: interpolate.interp1d(lx, y, kind=self.kind, axis=self.axis)(lq)
            return self._ret(linear_apply(f, self.y))
        if self.kind in ('linear', 'slinear', 1) and self.y.ndim == 1:
            from .sarray import a_argsort
            o = a_argsort(self.x)
            x, y = self.x[o], self.y[o]
            fv = self.fv
            if isinstance(fv, str):
                # extrapolation: extend the end segments
                def seg(v):
                    P, F = list(base(x)), list(base(y))
                    n = len(P)
                    r = None
                    for j in range(n - 2, -1, -1):
                        sl = elem.divide(elem.subtract(F[j + 1], F[j]), elem.subtract(P[j + 1], P[j]))
                        s = elem.add(F[j], elem.multiply(elem.subtract(v, P[j]), sl))
                        r = s if r is None else elem.ite(elem.less(v, P[j + 1]), s, r)
                    return r
                return self._ret(wrap(umap(seg, base(xs)), 'f'))
            fl, fh = fv if isinstance(fv, tuple) else (fv, fv)
            if self.be or (self.be is None and isinstance(fv, float) and fv != fv):
                bad = ((xs < x[0]) | (xs > x[-1])).any()
                if bool(bad):
                    raise ValueError('A value in x_new is outside the interpolation range.')
                fl = fh = None
            return self._ret(a_interp(xs, x, y, fl, fh))
        if self.kind == 'nearest' and self.y.ndim == 1 and lx is not None:
            o = np.argsort(lx, kind='stable')
            X, Y = lx[o], base(self.y)[o]
            mid = (X[1:] + X[:-1]) / 2

            def near(v):
                r = Y[-1]
                for j in range(len(mid) - 1, -1, -1):
                    r = elem.ite(elem.less_equal(v, mid[j]), Y[j], r)
                return r
            return self._ret(wrap(umap(near, base(xs)), 'f'))
        if self.kind in ('cubic', 'quadratic', 2, 3) and lx is not None and ly is not None and ly.ndim == 1:
            f = interpolate.interp1d(lx, ly, kind=self.kind, bounds_error=False, fill_value='extrapolate')
            if not isinstance(self.fv, str):
                bad = ((xs < float(lx.min())) | (xs > float(lx.max()))).any()
                if bool(bad):
                    raise Unsupported('interp1d(kind=cubic) outside its range')
            return self._ret(wrap(umap(lambda v: spline_at(f._spline, v) if is_sym(v) else float(f(v)), base(xs)), 'f'))
        raise Unsupported('interp1d at symbolic points (kind=%r)' % (self.kind,))

    def _ret(self, r):
        return wrap_out(np.asarray(r)) if not isinstance(r, (SymArray, Sym)) else r


def poly_eval(cs, mid, half, v):
    """Polynomial with coefficients cs (lowest first) in (v-mid)/half."""
    x = elem.divide(elem.subtract(v, mid), half)
    r = None
    for c in reversed(list(cs)):
        r = float(c) if r is None else elem.add(elem.multiply(r, x), float(c))
    return r


def spline_at(spl, v):
    """B-spline with concrete data at the symbolic point v (forks over the
    knot intervals v can lie in)."""
    from scipy.interpolate import PPoly
    from .core import eng, zreal
    from . import core
    from scipy.interpolate import BSpline
    pp = PPoly.from_spline(BSpline(spl.t, np.asarray(spl.c).reshape(-1), spl.k))
    brk = np.asarray(pp.x)
    seg = [i for i in range(len(brk) - 1) if brk[i + 1] > brk[i]]
    lo, hi = eng().range_of(core.zterm(v))
    use = [i for k, i in enumerate(seg) if (k == 0 or brk[i] <= hi) and (k == len(seg) - 1 or brk[i + 1] >= lo)]
    for n, i in enumerate(use):
        if n == len(use) - 1 or bool(elem.less(v, float(brk[i + 1]))):
            c = np.asarray(pp.c)[:, i]
            d = elem.subtract(v, float(brk[i]))
            r = None
            for k in range(len(c)):
                r = float(c[k]) if r is None else elem.add(elem.multiply(r, d), float(c[k]))
            return r


# ---------------------------------------------------------------- quadrature
from .core import frac, same_rational  # noqa: E402


class KDTree:
    """scipy.spatial.cKDTree of points with symbolic coordinates: which points are
    within a radius, and their order by distance, is decided by forking."""

    def __init__(self, data, *a, boxsize=None, **kw):
        if boxsize is not None:
            raise Unsupported('periodic k-d tree')
        self.p = [list(r) for r in base(as_sym(data))]
        self.data, self.n, self.m = as_sym(data), len(self.p), len(self.p[0]) if self.p else 0

    def _d2(self, a, b):
        return sum_list([elem.multiply(elem.subtract(x, y), elem.subtract(x, y)) for x, y in zip(a, b)])

    def query_pairs(self, r, p=2.0, eps=0, output_type='set'):
        r2 = elem.multiply(elem.norm(r), elem.norm(r))
        out = [(i, j) for i in range(self.n) for j in range(i + 1, self.n) if bool(elem.less_equal(self._d2(self.p[i], self.p[j]), r2))]
        return set(out) if output_type == 'set' else np.array(out, dtype=np.intp).reshape(len(out), 2)

    def query_ball_point(self, x, r, *a, return_length=False, **kw):
        x = as_sym(x)
        if x.ndim > 1:
            return [self.query_ball_point(q, r, return_length=return_length) for q in x]
        r2 = elem.multiply(elem.norm(r), elem.norm(r))
        out = [i for i in range(self.n) if bool(elem.less_equal(self._d2(self.p[i], list(base(x))), r2))]
        return len(out) if return_length else out

    def query(self, x, k=1, eps=0, p=2, distance_upper_bound=math.inf, workers=1):
        x = as_sym(x)
        if x.ndim > 1:
            got = [self.query(q, k, eps, p, distance_upper_bound) for q in x]
            return obj_array([v for d, _ in got for v in base(as_sym(d)).reshape(-1)], 'f', x.shape[:-1] + np.shape(got[0][0])), np.array([i for _, i in got])
        q = list(base(x))
        ub = elem.norm(distance_upper_bound)
        near = []
        for i in range(self.n):
            d2 = self._d2(q, self.p[i])
            if is_sym(ub) or not math.isinf(ub):
                if not bool(elem.less(d2, elem.multiply(ub, ub))):
                    continue
            j = 0
            while j < len(near) and bool(elem.less_equal(near[j][0], d2)):
                j += 1
            near.insert(j, (d2, i))
        m = 1 if k is None else int(k)
        d = [elem.sqrt(v) for v, _ in near[:m]]
        i = [v for _, v in near[:m]]
        d, i = d + [math.inf] * (m - len(d)), i + [self.n] * (m - len(i))
        if m == 1:
            return d[0], i[0]
        return obj_array(d, 'f'), np.array(i, dtype=np.intp)


def _distances(x, y):
    t = KDTree(y)
    return [[elem.sqrt(t._d2(list(base(as_sym(r))), q)) for q in t.p] for r in as_sym(x)]


def cdist(x, y, metric='euclidean', **kw):
    if metric != 'euclidean':
        raise Unsupported('metric')
    return obj_array([v for r in _distances(x, y) for v in r], 'f', (len(x), len(y)))


def pdist(x, metric='euclidean', **kw):
    d = cdist(x, x, metric)
    n = len(d)
    return obj_array([base(d)[i, j] for i in range(n) for j in range(i + 1, n)], 'f')


class Faddeeva:
    """scipy.special.wofz: an unknown function of the real and imaginary part; arguments
    that provably agree to 1e-9 have the same value."""
    __name__ = 'wofz'

    def one(self, v):
        v = elem.norm(v)
        if not is_sym(v):
            import scipy.special
            return complex(scipy.special.wofz(v))
        re, im = (v.re, v.im) if isinstance(v, SymC) else (v, 0.0)
        E = elem.eng()
        tr, ti = z3.simplify(core.zterm(re)), z3.simplify(core.zterm(im))
        apps = E.uf_apps.setdefault('wofz', [])
        for r, i, out in apps:
            if r.eq(tr) and i.eq(ti):
                return out
        for r, i, out in apps:
            near = []
            for a, b in ((tr, r), (ti, i)):
                near += [a - b > 1e-9 + 1e-9 * b, a - b > 1e-9 - 1e-9 * b, b - a > 1e-9 + 1e-9 * b, b - a > 1e-9 - 1e-9 * b]
            far = z3.Or(*[z3.And(near[k], near[k + 1]) for k in range(0, 8, 2)])
            if E._check(far) == z3.unsat:
                return out
        out = SymC(core.Sym(E.fresh('wofz_re'), False), core.Sym(E.fresh('wofz_im'), False))
        E.axiom(z3.Implies(ti >= 0, z3.And(out.re.e > 0, out.re.e <= 1, out.im.e >= -1, out.im.e <= 1)))
        apps.append((tr, ti, out))
        E.path_notes.append('wofz')
        return out

    def __call__(self, z):
        from . import units
        z = units.to_plain(z)
        if isinstance(z, np.ndarray):
            return wrap(umap(self.one, base(as_sym(z))), 'c')
        return self.one(z)


class QuadModel:
    """scipy.integrate.quad.  Concrete integrand and limits: the real routine.
    Concrete integrand, symbolic limit: the integral as a function of the limit
    is replaced by its Chebyshev polynomial on the limit's range (residual
    checked < 1e-9 relative).  Symbolic integrand: an unknown number per
    integrand; two integrals over the same range are proportional if the
    solver shows their integrands to be."""

    def __init__(self):
        self.E = None

    def __call__(self, func, a, b, args=(), **kw):
        import scipy.integrate as si
        from . import core
        E = core.eng()
        a, b = elem.norm(getattr(a, 'item', lambda: a)()), elem.norm(getattr(b, 'item', lambda: b)())
        if not isinstance(args, tuple):
            args = (args,)
        if self.E is not E or self.path is not E.trace:
            self.E, self.path, self.classes = E, E.trace, []
        opaque = []

        def nf(x):
            r = func(float(x), *args)
            if isinstance(r, SymArray):
                r = r.reshape(-1)[0]
            r = elem.norm(r)
            if is_sym(r):
                opaque.append(1)
                return 0.0
            return float(r)
        if not is_sym(a) and not is_sym(b):
            fin = [x for x in (a, b) if np.isfinite(x)]
            nf(fin[0] + (0.37 * (b - a) if len(fin) == 2 else 1.0))
            if not opaque:
                kw2 = {k: lower_deep(v) for k, v in kw.items()}
                return si.quad(nf, a, b, **kw2)
            return self.symbolic(func, args, a, b, float(a), float(b)), 0.0
        ra = (a, a) if not is_sym(a) else E.range_of(core.zterm(a))
        rb = (b, b) if not is_sym(b) else E.range_of(core.zterm(b))
        L, U = min(ra[0], rb[0]), max(ra[1], rb[1])
        nf(L + 0.37 * (U - L))
        if opaque:
            raise Unsupported('quad: symbolic integrand and symbolic limits')
        ref = float(si.quad(nf, L, U, epsabs=0, epsrel=1e-12, limit=200)[0])

        def prim(v, r):
            if not is_sym(v):
                return float(si.quad(nf, L, v, epsabs=0, epsrel=1e-12, limit=200)[0])
            lo, hi = r
            mid, half = (lo + hi) / 2, max((hi - lo) / 2, 1e-9)
            base0 = float(si.quad(nf, L, lo, epsabs=0, epsrel=1e-12, limit=200)[0])
            for deg in (2, 3, 4, 5, 6, 8, 10, 12):
                xs = np.cos(np.pi * (np.arange(4 * deg) + .5) / (4 * deg))
                ys = np.array([base0 + si.quad(nf, lo, mid + half * x, epsabs=0, epsrel=1e-12, limit=200)[0] for x in xs])
                c = np.polynomial.chebyshev.chebfit(xs, ys, deg)
                xt = np.linspace(-1, 1, 41)
                yt = np.array([base0 + si.quad(nf, lo, mid + half * x, epsabs=0, epsrel=1e-12, limit=200)[0] for x in xt])
                if np.abs(np.polynomial.chebyshev.chebval(xt, c) - yt).max() <= 1e-9 * max(abs(ref), 1e-300):
                    return poly_eval(np.polynomial.chebyshev.cheb2poly(c), mid, half, v)
            raise Unsupported('quad: integral is not smooth enough on [%g, %g]' % (lo, hi))
        return elem.subtract(prim(b, rb), prim(a, ra)), 0.0

    def symbolic(self, func, args, a, b, lo, hi):
        from . import core
        from .core import z3
        E = core.eng()
        if a == b:
            return 0.0
        if a > b:
            return elem.negative(self.symbolic(func, args, b, a, hi, lo))
        old = [c for c in self.classes if c[:2] == (lo, hi)]
        t = old[0][2] if old else E.fresh('quad_t')
        if old:
            pass
        elif math.isfinite(lo):
            E.axiom(t > core.zreal(lo))
        if not old and math.isfinite(hi):
            E.axiom(t < core.zreal(hi))
        depth = len(E.stack)

        def ev(x):
            r = func(x, *args)
            if isinstance(r, SymArray):
                r = r.reshape(-1)[0]
            return elem.norm(r)
        g = ev(Sym(t, False))
        tm = lo + 0.37 * (hi - lo) if math.isfinite(lo) and math.isfinite(hi) else (lo + 1.0 if math.isfinite(lo) else 0.0)
        for p in (1, 4, 16, 256):
            if lo < round(tm * p) / p < hi:     # few bits, so that expansions of it are exact
                tm = round(tm * p) / p
                break
        gm = ev(tm)
        if len(E.stack) != depth:
            raise Unsupported('quad: piecewise integrand')
        z = core.zterm
        for (l2, h2, t2, g2, gm2, val) in self.classes:
            if (l2, h2) != (lo, hi):
                continue
            E.stats.queries += 1
            if same_rational(z(g), z(g2)) or E._check(z(g) != z(g2)) == z3.unsat:
                return val
            E.stats.queries += 1
            if (same_rational(z(g) * z(gm2), z(g2) * z(gm)) or E._check(z(g) * z(gm2) != z(g2) * z(gm)) == z3.unsat) and E._check(z(gm2) == 0) == z3.unsat:
                return elem.divide(elem.multiply(val, gm), gm2)
        v = E.fresh('quad')
        for op, rel in ((z(g) < 0, v > 0), (z(g) > 0, v < 0)):
            E.stats.queries += 1
            if E._check(op) == z3.unsat:
                E.axiom(rel)
                break
        E.path_notes.append('quad')
        val = Sym(v, False)
        self.classes.append((lo, hi, t, g, gm, val))
        return val


class LinearInterpolator:
    """Any scipy interpolator class that is linear in its data argument."""

    def __init__(self, cls, pos, args, kw, datakw='values'):
        self.cls, self.pos, self.args, self.kw, self.datakw = cls, pos, list(args), dict(kw), datakw

    def _data(self):
        return self.args[self.pos] if len(self.args) > self.pos else self.kw[self.datakw]

    def _apply(self, meth, a, k):
        a, k = lower_deep(list(a)), lower_deep(k)

        def f(z):
            args = lower_deep(self.args[:self.pos]) + ([z] + lower_deep(self.args[self.pos + 1:]) if len(self.args) > self.pos else [])
            kw = lower_deep({x: y for x, y in self.kw.items() if x != self.datakw})
            if len(self.args) <= self.pos:
                kw[self.datakw] = z
            o = self.cls(*args, **kw)
            return np.asarray(o(*a, **k) if meth is None else getattr(o, meth)(*a, **k))
        d = as_sym(self._data())
        if lower(d) is not None:
            return wrap_out(f(lower(d)))
        return linear_apply(f, d.astype(float) if d._k != 'c' else d)

    def __call__(self, *a, **k):
        return self._apply(None, a, k)

    def ev(self, *a, **k):
        return self._apply('ev', a, k)


def interp_class(cls, pos, datakw='values'):
    def g(*args, **kw):
        return LinearInterpolator(cls, pos, args, kw, datakw)
    return g


def binned_statistic_dd(sample, values, statistic='mean', bins=10, range=None, expand_binnumbers=False, binned_statistic_result=None):
    from .sarray import a_histogramdd
    if statistic not in ('sum', 'mean', 'count'):
        raise Unsupported('binned_statistic %r' % (statistic,))
    H, e = a_histogramdd(sample, bins, range)
    for ed in e:
        d = np.diff(np.asarray(lower_deep(ed), float)) if not has_sym(ed) else None
        if d is not None and d.size and d.min() == 0:
            raise ValueError('The smallest edge difference is numerically 0.')
    if statistic == 'count':
        r = H
    else:
        S, e = a_histogramdd(sample, bins, range, weights=values)
        r = S if statistic == 'sum' else S / H
    from collections import namedtuple
    R = namedtuple('BinnedStatisticddResult', 'statistic bin_edges binnumber')
    return R(r, e, None)


def binned_statistic_2d(x, y, values, statistic='mean', bins=10, range=None, expand_binnumbers=False):
    from collections import namedtuple
    if not isinstance(bins, (int, np.integer)) and len(bins) not in (1, 2):
        bins = [bins, bins]
    r = binned_statistic_dd([x, y], values, statistic, bins, range)
    R = namedtuple('BinnedStatistic2dResult', 'statistic x_edge y_edge binnumber')
    return R(r[0], r[1][0], r[1][1], None)


def binned_statistic(x, values, statistic='mean', bins=10, range=None):
    r = binned_statistic_dd([x], values, statistic, [bins] if not isinstance(bins, (int, np.integer)) else bins, None if range is None else ([range] if not isinstance(range[0], (tuple, list)) else range))
    from collections import namedtuple
    R = namedtuple('BinnedStatisticResult', 'statistic bin_edges binnumber')
    return R(r[0], r[1][0], None)


def a_isclose_scalar(a, b, rel_tol, abs_tol):
    """math.isclose"""
    d, m = abs(a - b), elem.maximum(abs(a), abs(b))
    return d <= elem.maximum(rel_tol * m, abs_tol)


def _square(a):
    a = as_sym(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise Unsupported('linear algebra of stacks of matrices')
    return [[a[i, j] for j in range(a.shape[1])] for i in range(a.shape[0])]


def _det(m):
    if len(m) == 1:
        return m[0][0]
    if len(m) > 4:
        raise Unsupported('linear algebra of large symbolic matrices')
    return sum((-1) ** j * m[0][j] * _det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)))


def _lowered(f, *a):
    l = [lower(as_sym(x)) for x in a]
    return None if any(x is None for x in l) else wrap_out(f(*l))


def la_det(a):
    r = _lowered(np.linalg.det, a)
    return _det(_square(a)) if r is None else r


def la_inv(a):
    r = _lowered(np.linalg.inv, a)
    if r is not None:
        return r
    m = _square(a)
    d, n = _det(m), len(m)
    if n == 1:
        return obj_array([1 / d], 'f').reshape(1, 1)
    minor = lambda i, j: _det([r[:j] + r[j + 1:] for k, r in enumerate(m) if k != i])
    return obj_array([(-1) ** (i + j) * minor(j, i) / d for i in range(n) for j in range(n)], 'f').reshape(n, n)


def la_solve(a, b):
    r = _lowered(np.linalg.solve, a, b)
    return as_sym(la_inv(a)) @ as_sym(b) if r is None else r


def st_moment(a, order=1, axis=0, center=None, **kw):
    if kw:
        raise Unsupported('scipy.stats.moment(%s)' % ', '.join(kw))
    a = as_sym(a)
    c = a.mean(axis=axis, keepdims=True) if center is None and order > 1 else center
    d = a - c if center is not None or order > 1 else a - a.mean(axis=axis, keepdims=True)
    return (d ** order).mean(axis=axis)


def st_skew(a, axis=0, bias=True, **kw):
    if kw or not bias:
        raise Unsupported('scipy.stats.skew options')
    return st_moment(a, 3, axis) / st_moment(a, 2, axis) ** 1.5


def st_kurtosis(a, axis=0, fisher=True, bias=True, **kw):
    if kw or not bias:
        raise Unsupported('scipy.stats.kurtosis options')
    r = st_moment(a, 4, axis) / st_moment(a, 2, axis) ** 2
    return r - 3 if fisher else r


def build():
    """module name -> {attribute: model}"""
    import scipy.special
    import scipy.fft
    import scipy.fftpack
    import scipy.integrate
    import scipy.interpolate
    import scipy.ndimage as nd
    import scipy.signal as sg
    import scipy.stats
    T = {}
    fftnames = ['fft', 'ifft', 'fft2', 'ifft2', 'fftn', 'ifftn', 'rfft', 'irfft', 'rfftn', 'irfftn', 'rfft2', 'irfft2', 'fftshift', 'ifftshift']

    def mkfft(n, lib):
        def g(*a, **k):
            return fft_function(n, a, k, lib)
        g.__name__ = n
        return g
    T['numpy.fft'] = {n: mkfft(n, 'numpy') for n in fftnames}
    T['scipy.fft'] = {n: mkfft(n, scipy.fft) for n in fftnames}
    T['scipy.fftpack'] = {n: mkfft(n, scipy.fftpack) for n in ['fft', 'ifft', 'fft2', 'ifft2', 'fftn', 'ifftn', 'fftshift', 'ifftshift']}
    ndm = {n: linear_model(getattr(nd, n), 0, 'input') for n in
           ['gaussian_filter', 'gaussian_filter1d', 'uniform_filter', 'uniform_filter1d', 'zoom', 'map_coordinates', 'shift', 'rotate',
            'laplace', 'gaussian_laplace', 'sobel', 'prewitt', 'spline_filter', 'fourier_gaussian', 'affine_transform', 'fourier_shift']}
    ndm.update({n: bilinear_model(getattr(nd, n)) for n in ['convolve', 'correlate', 'convolve1d', 'correlate1d']})
    ndm.update({n: fork_model(getattr(nd, n)) for n in
                ['label', 'binary_opening', 'binary_closing', 'binary_dilation', 'binary_erosion', 'binary_fill_holes', 'distance_transform_edt',
                 'distance_transform_cdt', 'find_objects']})

    def nd_reduce(op):
        def g(input, labels=None, index=None):
            a = as_sym(input)
            if labels is None:
                return getattr(a, op)()
            lab = norm_index(as_sym(labels))
            if index is None:
                return getattr(a[wrap_real(lab > 0)], op)()
            idx = np.asarray(lower_deep(index))
            vals = [getattr(a[wrap_real(lab == i)], op)() for i in idx.reshape(-1)]
            return vals[0] if idx.ndim == 0 else obj_array(vals)
        return g
    ndm['sum'] = ndm['sum_labels'] = nd_reduce('sum')
    ndm['mean'] = nd_reduce('mean')
    ndm['variance'] = nd_reduce('var')
    ndm['standard_deviation'] = nd_reduce('std')
    ndm['maximum'] = nd_reduce('max')
    ndm['minimum'] = nd_reduce('min')
    T['scipy.ndimage'] = ndm
    T['scipy.signal'] = {'fftconvolve': direct_convolve(), 'convolve': direct_convolve(), 'oaconvolve': direct_convolve(),
                         'convolve2d': bilinear_model(sg.convolve2d), 'correlate': bilinear_model(sg.correlate), 'savgol_filter': linear_model(sg.savgol_filter, 0, 'x'),
                         'detrend': linear_model(sg.detrend, 0, 'data')}
    from .sarray import a_trapezoid
    T['scipy.integrate'] = {'quad': QuadModel(), 'simpson': linear_model(scipy.integrate.simpson, 0, 'y'), 'trapezoid': a_trapezoid, 'trapz': a_trapezoid,
                            'cumulative_trapezoid': linear_model(scipy.integrate.cumulative_trapezoid, 0, 'y'),
                            'romb': linear_model(scipy.integrate.romb, 0, 'y')}
    ip = scipy.interpolate
    T['scipy.interpolate'] = {'interp1d': Interp1d, 'RegularGridInterpolator': interp_class(ip.RegularGridInterpolator, 1),
                              'RectBivariateSpline': interp_class(ip.RectBivariateSpline, 2, 'z'),
                              'NearestNDInterpolator': interp_class(ip.NearestNDInterpolator, 1, 'y'),
                              'LinearNDInterpolator': interp_class(ip.LinearNDInterpolator, 1),
                              'griddata': linear_model(ip.griddata, 1, 'values'), 'interpn': linear_model(ip.interpn, 1, 'values'),
                              'CubicSpline': interp_class(ip.CubicSpline, 1, 'y'), 'InterpolatedUnivariateSpline': interp_class(ip.InterpolatedUnivariateSpline, 1, 'y'),
                              'UnivariateSpline': ip.UnivariateSpline}
    T['scipy.stats'] = {'binned_statistic_dd': binned_statistic_dd, 'binned_statistic': binned_statistic,
                        'binned_statistic_2d': binned_statistic_2d, 'moment': st_moment, 'skew': st_skew, 'kurtosis': st_kurtosis}
    T['scipy.spatial'] = {'cKDTree': KDTree, 'KDTree': KDTree}
    T['scipy.spatial.distance'] = {'cdist': cdist, 'pdist': pdist}
    T['scipy.special'] = {'wofz': Faddeeva()}
    from .sarray import a_norm
    T['numpy.linalg'] = {'norm': a_norm, 'det': la_det, 'inv': la_inv, 'solve': la_solve}
    try:
        import skimage.measure
        import skimage.morphology
        T['skimage.measure'] = {'label': fork_model(skimage.measure.label)}
        T['skimage.morphology'] = {n: fork_model(getattr(skimage.morphology, n)) for n in
                                   ['label', 'binary_opening', 'binary_closing', 'binary_dilation', 'binary_erosion', 'opening', 'remove_small_objects']
                                   if hasattr(skimage.morphology, n)}
    except ImportError:
        pass
    for sub in ('filters', 'interpolation', 'morphology', 'measurements'):
        T['scipy.ndimage.' + sub] = ndm
    import math as m
    ALIAS = {'fabs': 'absolute', 'pow': 'power', 'atan': 'arctan', 'asin': 'arcsin', 'acos': 'arccos', 'atan2': 'arctan2'}

    def mm(n):
        f = ALIAS.get(n, n)
        ef = elem.ELEM_BY_NAME[f]
        rf = getattr(m, n)

        def g(*a):
            a = [elem.norm(x) if not isinstance(x, SymArray) else elem.norm(x.item()) for x in a]
            if any(is_sym(x) for x in a):
                return ef(*a)
            return rf(*a)
        return g
    T['math'] = {n: mm(n) for n in ['sqrt', 'exp', 'log', 'log10', 'log2', 'sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'atan2', 'hypot', 'fabs', 'isnan', 'isinf',
                                    'isfinite', 'pow', 'fmod', 'radians', 'degrees', 'tanh', 'sinh', 'log1p', 'expm1', 'copysign', 'cbrt']
                 if ALIAS.get(n, n) in elem.ELEM_BY_NAME}
    T['math'].update({'floor': lambda x: elem.trunc_int(elem.floor(elem.norm(x))), 'ceil': lambda x: elem.trunc_int(elem.ceil(elem.norm(x))), 'trunc': lambda x: elem.trunc_int(x),
                      'prod': lambda it, start=1: __import__('functools').reduce(lambda a, b: a * b, it, start), 'fsum': lambda it: sum(it),
                      'isclose': lambda a, b, rel_tol=1e-9, abs_tol=0.0: a_isclose_scalar(a, b, rel_tol, abs_tol),
                      'dist': lambda p, q: elem.sqrt(sum((x - y) * (x - y) for x, y in zip(p, q)))})
    log = T['math']['log']
    T['math']['log'] = lambda x, b=None: log(x) if b is None else log(x) / log(b)
    return T
