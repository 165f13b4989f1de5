"""numpy arrays whose elements may be symbolic.

SymArray is an object-dtype ndarray subclass.  `_k` records the kind the real
array would have ('b','i','f','c'), so that assignment casts, in-place casting
errors and `.dtype` behave as in numpy.  Structure (views, indexing, reshaping)
is numpy's own; arithmetic goes through symex.elem.
"""
import builtins
import itertools
import math

import numpy as np

from . import elem
from .core import (Sym, SymBool, SymC, Unsupported, as_z3bool, eng, is_sym, mk, z3, zterm)
from .core import _isint, Fraction

KINDS = 'bifc'
KDT = {'b': np.dtype(bool), 'i': np.dtype('int64'), 'f': np.dtype('float64'), 'c': np.dtype('complex128')}


def kind_of_dtype(dt):
    if dt is None:
        return None
    if dt is float:
        return 'f'
    if dt is int:
        return 'i'
    if dt is complex:
        return 'c'
    if dt is bool:
        return 'b'
    real = getattr(dt, '__symex_real__', None)
    if real is not None:
        dt = real
    if isinstance(dt, str) and dt in KINDS and dt not in 'bi':
        pass
    k = np.dtype(dt).kind
    if k == 'u':
        k = 'i'
    return k


def kind_of(x):
    if isinstance(x, SymArray):
        return x._k
    if isinstance(x, Sym):
        return 'i' if x.isint else 'f'
    if isinstance(x, (bool, np.bool_, SymBool)):
        return 'b'
    if isinstance(x, (int, np.integer)):
        return 'i'
    if isinstance(x, (float, np.floating, Fraction)):
        return 'f'
    if isinstance(x, (complex, np.complexfloating, SymC)):
        return 'c'
    if isinstance(x, np.ndarray):
        k = x.dtype.kind
        if k == 'O':
            return infer_kind(x)
        return 'i' if k == 'u' else k
    if isinstance(x, (list, tuple)):
        return infer_kind(np.array(x, dtype=object)) if len(x) else 'f'
    return 'O'


def maxkind(*ks):
    r = 0
    for k in ks:
        if k not in KINDS:
            return 'O'
        r = builtins.max(r, KINDS.index(k))
    return KINDS[r]


def infer_kind(a, hint=None):
    r = 0
    for v in a.flat:
        k = 'O' if isinstance(v, (list, dict, set)) else kind_of(v)
        if k not in KINDS:
            return 'O'
        r = builtins.max(r, KINDS.index(k))
        if r == 3:
            break
    if a.size == 0:
        return hint or 'f'
    return KINDS[r]


def cast_scalar(v, k):
    """Value stored when v is written into an array of kind k."""
    v = elem.norm(v)
    if k is None or k == 'O':
        return v
    if is_sym(v):
        if k == 'f':
            if isinstance(v, SymC):
                return v.re
            if isinstance(v, SymBool) or v.isint:
                return mk(zterm(v), False)
            return v
        if k == 'c':
            if isinstance(v, SymC):
                return v
            return SymC(cast_scalar(v, 'f'), 0.0)
        if k == 'i':
            if isinstance(v, SymC):
                v = v.re
            return elem.trunc_int(v)
        if k == 'b':
            return elem.tobool(v)
    if isinstance(v, (str, bytes)):
        v = KDT[k].type(v)
        return v.item()
    if v is None:
        if k == 'f':
            return math.nan
        raise TypeError('cannot store None')
    if k == 'f':
        return float(v.real if isinstance(v, complex) else v)
    if k == 'i':
        if isinstance(v, complex):
            v = v.real
        if isinstance(v, float) and not math.isfinite(v):
            return -2 ** 63
        return int(v)
    if k == 'b':
        return bool(v)
    if k == 'c':
        return complex(v)
    raise Unsupported('cast to kind %r' % k)


def wrap_scalar(v, k=None):
    if isinstance(v, bool):
        return np.bool_(v)
    if isinstance(v, int):
        return np.int64(v) if -2 ** 63 <= v < 2 ** 63 else v
    if isinstance(v, float):
        return np.float64(v)
    if isinstance(v, complex):
        return np.complex128(v)
    return v


def base(a):
    """Plain object ndarray sharing a's memory."""
    return a.view(np.ndarray) if isinstance(a, SymArray) else a


def set_dt(a, dtype):
    d = np.dtype(lower_deep(getattr(dtype, '__symex_real__', dtype)))
    a._dt = d if d != KDT[a._k] else None
    return a


def wrap(objarr, k):
    """View a plain object ndarray as a SymArray of kind k."""
    r = objarr.view(SymArray)
    r._k = k
    return r


def wrap_real(a):
    """A real ndarray as a (concrete) SymArray; non-numeric arrays unchanged."""
    if isinstance(a, SymArray):
        return a
    if type(a) is not np.ndarray:
        return a
    k = a.dtype.kind
    if k == 'O':
        return from_obj(a)
    if k == 'u':
        k = 'i'
    if k not in KINDS or a.dtype.names:
        return a
    return wrap(a.astype(object), k)


def from_obj(a, hint=None):
    """Object ndarray -> SymArray with inferred kind (or unchanged)."""
    a = base(a)
    k = infer_kind(a, hint)
    if k == 'O':
        return a
    if hint and KINDS.index(hint) > KINDS.index(k):
        k = hint
    out = np.empty(a.shape, object)
    fo, fa = out.reshape(-1), a.reshape(-1)
    for i in range(fa.size):
        fo[i] = cast_scalar(fa[i], k)
    return wrap(out, k)


def obj_array(lst, k=None, shape=None):
    a = np.empty(len(lst), object)
    for i, v in enumerate(lst):
        a[i] = elem.norm(v)
    if shape is not None:
        a = a.reshape(shape)
    if k is None:
        return from_obj(a)
    for i in range(len(lst)):
        a.reshape(-1)[i] = cast_scalar(a.reshape(-1)[i], k)
    return wrap(a, k)


def lower(x):
    """Concrete numpy value of x, or None when x contains symbols."""
    if isinstance(x, SymArray):
        if x._k == 'O':
            return None
        b = base(x)
        try:
            if x._k in 'bi':
                b.astype(float)        # raises on a symbol without forking
            return b.astype(KDT[x._k])
        except Unsupported:
            return None
        except (TypeError, OverflowError):
            return None
    if is_sym(x):
        return None
    return x


def lower_deep(x):
    """lower() through containers; raises Unsupported when symbolic."""
    if isinstance(x, SymArray):
        r = lower(x)
        if r is None:
            raise Unsupported('symbolic array where only a concrete one is modelled')
        return r
    if is_sym(x):
        raise Unsupported('symbolic value where only a concrete one is modelled')
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return type(x)(lower_deep(v) for v in x)
    if isinstance(x, dict) and type(x) is dict:
        return {k: lower_deep(v) for k, v in x.items()}
    real = getattr(x, '__symex_real__', None) if isinstance(x, type) else None
    if real is not None:
        return real
    return x


def has_sym(x):
    """Does x contain a symbolic value (or any SymArray)?"""
    if isinstance(x, SymArray) or is_sym(x) or getattr(type(x), '_symq', False):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    if isinstance(x, dict):
        return any(has_sym(v) for v in x.values())
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(is_sym(v) for v in x.flat)
    return False


def wrap_out(r):
    if isinstance(r, SymArray):
        return r
    if type(r) is np.ndarray:
        return wrap_real(r)
    if type(r) is tuple:
        return tuple(wrap_out(v) for v in r)
    if type(r) is list:
        return [wrap_out(v) for v in r]
    if isinstance(r, tuple) and hasattr(r, '_fields'):
        return type(r)(*[wrap_out(v) for v in r])
    return r


def as_sym(x, k=None):
    """Anything array-like -> SymArray (no copy for SymArray)."""
    if isinstance(x, SymArray):
        return x if k is None or k == x._k else x.astype(KDT[k])
    if is_sym(x):
        a = np.empty((), object)
        a[()] = x
        return wrap(a, kind_of(x))
    r = np.asarray(x) if not has_sym(x) else _nested(x)
    r = wrap_real(r)
    if k is not None and isinstance(r, SymArray) and r._k != k:
        r = r.astype(KDT[k])
    return r


def _nested(x):
    if isinstance(x, SymArray):
        return x
    if is_sym(x):
        return as_sym(x)
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, (list, tuple)):
        parts = [_nested(v) if has_sym(v) else np.asarray(v) for v in x]
        shapes = {p.shape for p in parts}
        if len(shapes) > 1:
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        k = 'b'
        for p in parts:
            k = maxkind(k, kind_of(p))
        out = np.empty((len(parts),) + parts[0].shape, object)
        for i, p in enumerate(parts):
            p = base(as_sym(p))
            out[i] = p if p.ndim else p.item()
        return from_obj(out, None)
    a = np.empty((), object)
    a[()] = x
    return a


# ------------------------------------------------------------------ indexing
def norm_index(idx):
    """Replace symbolic/SymArray parts of an index by concrete ones (forking)."""
    if isinstance(idx, tuple):
        return tuple(norm_index(i) for i in idx)
    if isinstance(idx, Sym):
        if not idx.isint:
            raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
        return idx.__index__()
    if isinstance(idx, SymBool):
        return bool(idx)
    if isinstance(idx, SymArray):
        if idx._k == 'b':
            f = lower(idx)
            if f is not None:
                return f
            return np.array([bool(v) for v in base(idx).flat], dtype=bool).reshape(idx.shape)
        if idx._k == 'i':
            f = lower(idx)
            if f is not None:
                return f
            return np.array([v.__index__() for v in base(idx).flat], dtype=int).reshape(idx.shape)
        if idx.size == 0:
            return np.zeros(idx.shape, int)
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    if isinstance(idx, slice):
        return slice(_idx_int(idx.start), _idx_int(idx.stop), _idx_int(idx.step))
    if isinstance(idx, list) and has_sym(idx):
        return norm_index(as_sym(idx))
    return idx


def _idx_int(v):
    if isinstance(v, SymArray) and v.ndim == 0:
        v = v.item()
    if isinstance(v, Sym):
        return v.__index__()
    return v


def is_sym_mask(idx, a):
    return (isinstance(idx, SymArray) and idx._k == 'b' and idx.shape == a.shape[:idx.ndim] and idx.ndim > 0
            and lower(idx) is None)


class SymArray(np.ndarray):
    __array_priority__ = 900.0
    _dt = None      # storage type where it is not the default of the kind (matters for files only)

    def __array_finalize__(self, obj):
        if obj is not None:
            self._k = getattr(obj, '_k', 'f')
            self._dt = getattr(obj, '_dt', None)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return apply_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return apply_function(func, args, kwargs)

    def __reduce__(self):
        raise Unsupported('pickling a symbolic array')

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    @property
    def dtype(self):
        return KDT[self._k] if self._k in KDT else np.dtype(object)

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    @property
    def real(self):
        if self._k != 'c':
            return self
        return wrap(umap(elem.cre, base(self)), 'f')

    @real.setter
    def real(self, v):
        im = self.imag
        self[...] = as_sym(v) + 1j * im

    @property
    def imag(self):
        if self._k != 'c':
            return zeros(self.shape, self._k)
        return wrap(umap(elem.cim, base(self)), 'f')

    @imag.setter
    def imag(self, v):
        self[...] = self.real + 1j * as_sym(v)

    def __getitem__(self, idx):
        r = np.ndarray.__getitem__(base(self), norm_index(idx))
        if isinstance(r, np.ndarray):
            r = r.view(SymArray)
            r._k = self._k
            r._dt = self._dt
            return r
        return wrap_scalar(r)

    def __setitem__(self, idx, val):
        if isinstance(val, (list, tuple)):
            val = as_sym(val)
        if isinstance(val, np.ndarray) and val.ndim == 0:
            val = val.item()
        b = base(self)
        k = self._k
        if isinstance(idx, tuple) and len(idx) == 1:
            idx = idx[0]
        if is_sym_mask(idx, self) and not (isinstance(val, np.ndarray) and idx.ndim < self.ndim):
            if not isinstance(val, np.ndarray):
                v = cast_scalar(val, k)
                for p in np.ndindex(*idx.shape):
                    c = base(idx)[p]
                    if idx.ndim == self.ndim:
                        b[p] = elem.ite(c, v, b[p])
                    else:
                        sub = b[p]
                        for q in np.ndindex(*sub.shape):
                            sub[q] = elem.ite(c, v, sub[q])
                return
        idx = norm_index(idx)
        if isinstance(val, np.ndarray):
            v = val if isinstance(val, SymArray) else wrap_real(val)
            if not isinstance(v, SymArray):
                raise Unsupported('storing non-numeric data')
            if v._k != k:
                if v._k == 'c' and k != 'c':
                    v = v.real
                v = v.astype(KDT[k])
            np.ndarray.__setitem__(b, idx, base(v))
            return
        if k in 'bif' and isinstance(val, (complex, np.complexfloating, SymC)):
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        t = idx if isinstance(idx, tuple) else (idx,)
        one = len(t) == b.ndim and all(isinstance(i, (int, np.integer)) and not isinstance(i, (bool, np.bool_)) for i in t)
        np.ndarray.__setitem__(b, idx, cast_scalar(val, k) if one else _cell(cast_scalar(val, k)))

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, v):
        return bool(any_list([elem.equal(x, v) for x in base(self).flat]))

    def __bool__(self):
        if self.size != 1:
            if self.size == 0:
                return False
            raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
        return bool(base(self).reshape(-1)[0])

    def __float__(self):
        v = self.item()
        return float(v)

    def __int__(self):
        return int(self.item())

    def __index__(self):
        v = self.item()
        if self._k not in 'i':
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return v.__index__()

    def __complex__(self):
        return complex(self.item())

    def __round__(self, n=0):
        return self.round(n or 0)

    def __format__(self, spec):
        return '<symarray>'

    def __repr__(self):
        return '<symarray %s %s>' % (self._k, self.shape)
    __str__ = __repr__

    def __divmod__(self, o):
        return self // o, self % o

    def item(self, *a):
        r = base(self).item(*a) if self.size else base(self).item(*a)
        return r

    def tolist(self):
        return base(self).tolist()

    def fill(self, v):
        self[...] = v

    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        k = kind_of_dtype(dtype)
        if k not in KINDS:
            if k in 'OSU':
                return base(self).astype(dtype)
            raise Unsupported('astype(%r)' % (dtype,))
        if k == self._k:
            if not copy and np.dtype(lower_deep(getattr(dtype, '__symex_real__', dtype))) == (self._dt or KDT[k]):
                return self
            return set_dt(self.copy(), dtype)
        b = base(self)
        out = np.empty(b.shape, object)
        fo, fb = out.reshape(-1), b.reshape(-1)
        for i in range(fb.size):
            fo[i] = cast_scalar(fb[i], k)
        return set_dt(wrap(out, k), dtype)

    def view(self, *a, **k):
        if a and (a[0] is np.ndarray or a[0] is SymArray):
            return np.ndarray.view(self, *a, **k)
        if not a and not k:
            return np.ndarray.view(self)
        dt = a[0] if a else k.get('dtype')
        if not isinstance(dt, list) and kind_of_dtype(dt) == self._k:
            return np.ndarray.view(self)
        r = lower(self)
        if isinstance(r, np.ndarray) and r.dtype != object:
            return np.ascontiguousarray(r).view(*a, **k)
        raise Unsupported('reinterpreting the bytes of an array')

    def copy(self, order='C'):
        r = wrap(base(self).copy(order='C'), self._k)
        r._dt = self._dt
        return r

    __copy__ = copy

    def conj(self):
        return apply_ufunc(np.conjugate, '__call__', (self,), {}) if self._k == 'c' else self.copy()
    conjugate = conj

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
        return a_sum(self, axis, dtype, keepdims=keepdims, initial=initial, where=where)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, where=None):
        return a_mean(self, axis, keepdims=keepdims, where=where)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=None):
        return a_var(self, axis, ddof=ddof, keepdims=keepdims, where=where)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=None):
        return np_sqrt(a_var(self, axis, ddof=ddof, keepdims=keepdims, where=where))

    def min(self, axis=None, out=None, keepdims=False, initial=None, where=None):
        return a_min(self, axis, keepdims=keepdims, initial=initial, where=where)

    def max(self, axis=None, out=None, keepdims=False, initial=None, where=None):
        return a_max(self, axis, keepdims=keepdims, initial=initial, where=where)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
        return a_prod(self, axis, keepdims=keepdims, initial=initial, where=where)

    def any(self, axis=None, out=None, keepdims=False, where=None):
        return a_any(self, axis, keepdims=keepdims, where=where)

    def all(self, axis=None, out=None, keepdims=False, where=None):
        return a_all(self, axis, keepdims=keepdims, where=where)

    def cumsum(self, axis=None, dtype=None, out=None):
        return a_cum(elem.add, self, axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        return a_cum(elem.multiply, self, axis)

    def argmin(self, axis=None, out=None, keepdims=False):
        return a_arg(elem.less, self, axis)

    def argmax(self, axis=None, out=None, keepdims=False):
        return a_arg(elem.greater, self, axis)

    def ptp(self, axis=None):
        return a_max(self, axis) - a_min(self, axis)

    def nonzero(self):
        return a_nonzero(self)

    def round(self, decimals=0, out=None):
        return wrap_or_scalar(umap(lambda v: elem.round_(v, decimals), base(self)), self._k)

    def clip(self, min=None, max=None, out=None):
        return a_clip(self, min, max, out=out)

    def dot(self, o):
        return a_dot(self, o)

    def argsort(self, axis=-1, kind=None, order=None, stable=None):
        return a_argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None, stable=None):
        self[...] = a_sort(self, axis)

    def searchsorted(self, v, side='left', sorter=None):
        return a_searchsorted(self, v, side, sorter)

    def take(self, indices, axis=None, out=None, mode='raise'):
        return wrap_or_scalar(base(self).take(norm_index(as_sym(indices)), axis, mode=mode), self._k)

    def repeat(self, r, axis=None):
        return wrap(base(self).repeat(lower_deep(r), axis), self._k)

    def diagonal(self, *a, **k):
        return wrap(base(self).diagonal(*a, **k).copy(), self._k)

    def trace(self, *a, **k):
        return self.diagonal(*a, **k).sum(-1)

    def tofile(self, fid, sep='', format='%s'):
        from . import fsmodel
        return fsmodel.tofile(self, fid, sep, format)

    def tobytes(self, order='C'):
        from . import fsmodel
        return fsmodel.tobytes(self, order)

    def __array__(self, dtype=None, copy=None):
        k = kind_of_dtype(dtype) if dtype is not None else self._k
        r = lower(self)
        if r is None:
            raise Unsupported('symbolic array passed to compiled code')
        return r.astype(dtype) if dtype is not None else r


def _cell(v):
    if isinstance(v, (Sym, SymBool, SymC)):
        a = np.empty((), object)
        a[()] = v
        return a
    return v


def umap(f, a, nout=1):
    """Map f over an object array, keeping shape."""
    if not isinstance(a, np.ndarray):
        return f(a)
    out = np.empty(a.shape, object)
    fo = out.reshape(-1)
    for i, v in enumerate(a.reshape(-1) if a.ndim else [a.item()]):
        fo[i] = f(v)
    return out


def wrap_or_scalar(r, k):
    if isinstance(r, np.ndarray):
        if r.ndim == 0:
            return wrap_scalar(cast_scalar(r.item(), k))
        return wrap(r, k)
    return wrap_scalar(cast_scalar(r, k))


def zeros(shape, k):
    v = {'b': False, 'i': 0, 'f': 0.0, 'c': 0j}[k]
    a = np.empty(shape, object)
    a.fill(v)
    return wrap(a, k)


def np_sqrt(x):
    return apply_ufunc(np.sqrt, '__call__', (x,), {})


# -------------------------------------------------------------------- ufuncs
_FPF = {}


def result_kind(name, ks):
    if 'O' in ks:
        return 'O'
    if name in elem.KIND_BOOL:
        return 'b'
    k = maxkind(*ks)
    if name in elem.KIND_FLOAT:
        return k if k in 'fc' else 'f'
    if name == 'absolute':
        return 'f' if k == 'c' else k
    if name in ('subtract', 'negative', 'positive') and k == 'b':
        raise TypeError('numpy boolean %s is not supported' % name)
    if name in ('power', 'floor_divide', 'remainder', 'square', 'sign') and k == 'b':
        return 'i'
    return k


def uarg(x):
    if isinstance(x, SymArray):
        return base(x)
    if isinstance(x, np.ndarray):
        return base(wrap_real(x))
    if isinstance(x, (list, tuple)):
        return base(as_sym(x))
    return x


def apply_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    inputs = tuple(as_sym(x) if isinstance(x, (list, tuple)) and not (method == 'at' and j == 1) else x for j, x in enumerate(inputs))
    for x in inputs:
        if not is_sym(x) and not type(x) is SymArray and (hasattr(x, 'unit') or hasattr(x, 'physical_type')):
            if method != '__call__':
                raise Unsupported('ufunc method %s of a quantity' % method)
            from . import units
            return units.qop(name, inputs)
    kw = dict(kw)
    out = kw.pop('out', None)
    if isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    if method == '__call__':
        dt = kw.pop('dtype', None)
        where = kw.pop('where', True)
        kw.pop('casting', None)
        low = [lower(x) for x in inputs]
        if all(v is not None for v in low) and where is True:
            with np.errstate(all='ignore'):
                r = getattr(ufunc, method)(*low, **({'dtype': lower_deep(dt)} if dt is not None else {}))
            r = wrap_out(r) if isinstance(r, (np.ndarray, tuple)) else r
            if out is None:
                return r
            return _store_out(out, r, name, inputs)
        if name == 'matmul':
            r = a_matmul(*inputs)
        elif name == 'vecdot':
            r = (inputs[0] * inputs[1]).sum(-1)
        elif name == 'divmod':
            return (apply_ufunc(np.floor_divide, '__call__', inputs, {}), apply_ufunc(np.remainder, '__call__', inputs, {}))
        elif name == 'modf':
            i = apply_ufunc(np.trunc, '__call__', inputs, {})
            return (inputs[0] - i, i)
        else:
            f = elem.ELEM_BY_NAME.get(name)
            if f is None:
                raise Unsupported('ufunc %s of symbolic values' % name)
            ks = [kind_of(x) for x in inputs]
            rk = result_kind(name, ks)
            if name == 'power' and maxkind(*ks) == 'i' and isinstance(inputs[1], (int, np.integer)) and inputs[1] < 0:
                raise ValueError('Integers to negative integer powers are not allowed.')
            if not any(isinstance(x, np.ndarray) for x in inputs):
                r = f(*[elem.norm(x) for x in inputs])
                r = wrap_scalar(cast_scalar(r, rk)) if rk != 'O' else r
            else:
                fp = _FPF.get(name)
                if fp is None:
                    fp = _FPF[name] = np.frompyfunc(f, ufunc.nin, 1)
                args = [_cell(x) if is_sym(x) else uarg(x) for x in inputs]
                r = fp(*args)
                if where is not True:
                    w = uarg(where)
                    prev = uarg(out) if out is not None else 0.0
                    r = np.frompyfunc(lambda c, a, b: elem.ite(elem.tobool(c), a, b), 3, 1)(w, r, prev)
                if isinstance(r, np.ndarray):
                    if rk != 'O':
                        fr = r.reshape(-1)
                        for i in range(fr.size):
                            fr[i] = cast_scalar(fr[i], rk)
                    r = wrap(r, rk)
                else:
                    r = wrap_scalar(cast_scalar(r, rk)) if rk != 'O' else r
        if dt is not None:
            r = r.astype(dt)
        if out is None:
            return r
        return _store_out(out, r, name, inputs)
    if method == 'reduce':
        a = as_sym(inputs[0])
        axis = kw.get('axis', 0) if len(inputs) < 2 else inputs[1]
        kd = kw.get('keepdims', False)
        ini = kw.get('initial', None)
        wh = kw.get('where', None)
        if ini is np._NoValue:
            ini = None
        if wh is True:
            wh = None
        table = {'add': a_sum, 'multiply': a_prod, 'maximum': a_max, 'minimum': a_min, 'logical_or': a_any,
                 'logical_and': a_all, 'fmax': a_max, 'fmin': a_min, 'bitwise_or': a_any, 'bitwise_and': a_all}
        if name not in table:
            raise Unsupported('%s.reduce' % name)
        r = table[name](a, axis, keepdims=kd, initial=ini, where=wh)
        return r if out is None else _store_out(out, r, name, ())
    if method == 'accumulate':
        a = as_sym(inputs[0])
        axis = kw.get('axis', 0)
        f = elem.ELEM_BY_NAME[name]
        return a_cum(f, a, axis)
    if method == 'outer':
        a, b = as_sym(inputs[0]), as_sym(inputs[1])
        return apply_ufunc(ufunc, '__call__', (a.reshape(a.shape + (1,) * b.ndim), b), kw)
    if method == 'at':
        a, idx = inputs[0], inputs[1]
        if not isinstance(a, SymArray):
            raise Unsupported('ufunc.at into a plain array')
        f = elem.ELEM_BY_NAME[name]
        pos = np.empty(a.size, int)
        flat = np.arange(a.size).reshape(a.shape)[norm_index(idx if not isinstance(idx, list) else as_sym(idx))]
        b = base(a)
        vals = base(as_sym(inputs[2])) if len(inputs) > 2 else None
        if vals is not None:
            vals = np.broadcast_to(vals, flat.shape).reshape(-1)
        sh = a.shape
        for j, p in enumerate(np.asarray(flat).reshape(-1)):
            q = np.unravel_index(int(p), sh)
            b[q] = cast_scalar(f(b[q], vals[j]) if vals is not None else f(b[q]), a._k)
        return None
    raise Unsupported('ufunc method %s' % method)


def _store_out(out, r, name, inputs):
    if not isinstance(out, SymArray):
        lr = lower(r)
        if isinstance(out, np.ndarray) and lr is not None:
            if not np.can_cast(np.asarray(lr).dtype, out.dtype, 'same_kind'):
                raise TypeError("Cannot cast ufunc '%s' output" % name)
            out[...] = lr
            return out
        raise Unsupported('writing symbolic values into a plain array')
    rk = kind_of(r)
    if KINDS.index(rk) > KINDS.index(out._k):
        raise TypeError("Cannot cast ufunc '%s' output from dtype('%s') to dtype('%s') with casting rule 'same_kind'"
                        % (name, KDT[rk], KDT[out._k]))
    shp = r.shape if isinstance(r, np.ndarray) else ()
    if shp != out.shape and np.broadcast_shapes(shp, out.shape) != out.shape:
        raise ValueError('non-broadcastable output operand with shape %s doesn\'t match the broadcast shape %s' % (out.shape, shp))
    out[...] = r
    return out


# ---------------------------------------------------------------- reductions
def sum_list(vals):
    """n-ary sum."""
    conc, zr, cpl = 0, [], []
    allint = True
    nonfin = None
    for v in vals:
        v = elem.norm(v)
        if isinstance(v, (SymC, complex)):
            cpl.append(v)
            continue
        if is_sym(v):
            zr.append(v)
        else:
            conc = conc + (int(v) if isinstance(v, bool) else v)
    if cpl:
        re = sum_list([elem.cre(v) for v in cpl] + zr + [conc])
        im = sum_list([elem.cim(v) for v in cpl])
        return elem.mkc(re, im)
    if not zr:
        return conc
    if isinstance(conc, float) and not math.isfinite(conc):
        return conc
    isint = all(_isint(v) for v in zr) and isinstance(conc, int)
    if len(zr) == 1 and conc == 0 and (isinstance(conc, int) or not _isint(zr[0])):
        return elem.tonum(zr[0])
    ts = [zterm(v, not isint) for v in zr]
    if conc != 0:
        ts.append(zterm(conc, not isint))
    return mk(z3.Sum(*ts) if len(ts) > 1 else ts[0], isint)


def prod_list(vals):
    r = 1
    for v in vals:
        r = elem.multiply(r, v) if not (isinstance(v, (bool, SymBool))) else elem.multiply(r, elem.tonum(v) if is_sym(v) else int(v))
    return r


def max_list(vals, f=elem.maximum):
    vals = list(vals)
    if not vals:
        raise ValueError('zero-size array to reduction operation maximum which has no identity')
    r = vals[0]
    for v in vals[1:]:
        r = f(r, v)
    return r


def any_list(vals):
    vals = [elem.tobool(v) for v in vals]
    if any(v is True for v in vals):
        return True
    s = [v.e for v in vals if v is not False]
    if not s:
        return False
    return SymBool(z3.Or(*s) if len(s) > 1 else s[0])


def all_list(vals):
    vals = [elem.tobool(v) for v in vals]
    if any(v is False for v in vals):
        return False
    s = [v.e for v in vals if v is not True]
    if not s:
        return True
    return SymBool(z3.And(*s) if len(s) > 1 else s[0])


def _axes(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        ax = tuple(int(x) for x in axis)
    else:
        ax = (axis.__index__(),)
    for x in ax:
        if not -a.ndim <= x < a.ndim:
            raise np.exceptions.AxisError(x, a.ndim)
    return tuple(x % a.ndim for x in ax)


def reduce_lists(a, axis, f, k, keepdims=False, where=None, initial=None):
    """Apply f to the list of elements along axis (all axes when None)."""
    a = as_sym(a)
    b = base(a)
    if b.ndim == 0:
        b = b.reshape(1)
        ax = (0,)
        rest_shape = ()
        kd_shape = ()
    else:
        ax = _axes(a, axis)
        rest_shape = tuple(n for i, n in enumerate(b.shape) if i not in ax)
        kd_shape = tuple(1 if i in ax else n for i, n in enumerate(b.shape))
    rest = [i for i in range(b.ndim) if i not in ax]
    n = 1
    for i in ax:
        n *= b.shape[i]
    nr = 1
    for s in rest_shape:
        nr *= s
    t = b.transpose(rest + list(ax)).reshape((nr, n))
    w = None
    if where is not None and where is not True:
        w = np.broadcast_to(base(as_sym(where)), b.shape).transpose(rest + list(ax)).reshape((nr, n))
    out = np.empty(nr, object)
    for i in range(nr):
        vals = list(t[i])
        if initial is not None:
            vals = [elem.norm(initial)] + vals
        if w is not None:
            out[i] = f(vals, list(w[i]))
        else:
            out[i] = f(vals)
        out[i] = cast_scalar(out[i], k)
    if keepdims:
        return wrap(out.reshape(kd_shape), k)
    if not rest_shape:
        return wrap_scalar(out[0])
    return wrap(out.reshape(rest_shape), k)


def _lowred(npf, a, axis, keepdims, initial, where, **kw):
    """Concrete fast path of a reduction."""
    la = lower(a)
    if la is None or is_sym(initial):
        return None
    if where is not None and where is not True:
        where = lower(where)
        if where is None:
            return None
        kw['where'] = where
    if initial is not None:
        kw['initial'] = initial
    ax = axis
    if isinstance(ax, list):
        ax = tuple(ax)
    with np.errstate(all='ignore'):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return wrap_out(npf(la, axis=ax, keepdims=keepdims, **kw))


def a_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **kw):
    a = as_sym(a)
    r = _lowred(np.sum, a, axis, keepdims, initial, where)
    if r is None:
        k = 'i' if a._k == 'b' else a._k
        if where is None or where is True:
            r = reduce_lists(a, axis, sum_list, k, keepdims, initial=initial)
        else:
            r = reduce_lists(a, axis, lambda v, w: sum_list([elem.ite(elem.tobool(c), x, 0) for c, x in zip(w, v)]), k,
                             keepdims, where)
    if dtype is not None:
        r = r.astype(dtype) if hasattr(r, 'astype') else cast_scalar(r, kind_of_dtype(dtype))
    return _ret(out, r)


def _ret(out, r):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    out[...] = r
    return out


def a_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=None, **kw):
    a = as_sym(a)
    r = _lowred(np.mean, a, axis, keepdims, None, where)
    if r is None:
        k = 'c' if a._k == 'c' else 'f'
        if where is None or where is True:
            r = reduce_lists(a, axis, lambda v: elem.divide(sum_list(v), float(len(v)) if len(v) else 0.0) if v else math.nan, k, keepdims)
        else:
            r = reduce_lists(a, axis, lambda v, w: elem.divide(
                sum_list([elem.ite(elem.tobool(c), x, 0) for c, x in zip(w, v)]), sum_list([elem.multiply(elem.tobool(c), 1) for c in w])), k, keepdims, where)
    return _ret(out, r)


def a_average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = as_sym(a)
    if weights is None:
        r = a_mean(a, axis, keepdims=keepdims)
        if returned:
            n = a.size / np.size(r)
            return r, n
        return r
    w = as_sym(weights)
    if w.shape != a.shape:
        if axis is None:
            raise TypeError('Axis must be specified when shapes of a and weights differ.')
        w = apply_function(np.broadcast_to, (w, (a.ndim - 1) * (1,) + w.shape), {}).swapaxes(-1, axis)
    scl = apply_function(np.broadcast_to, (w, a.shape), {}).sum(axis, keepdims=keepdims)
    ls = lower(scl)
    if ls is not None and np.any(ls == 0):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    r = (a * w).sum(axis, keepdims=keepdims) / scl
    return (r, scl) if returned else r


def _var_list(v, ddof=0):
    n = len(v)
    if n == 0:
        return math.nan
    m = elem.divide(sum_list(v), float(n))
    d = [elem.subtract(x, m) for x in v]
    sq = [elem.add(elem.multiply(elem.cre(x), elem.cre(x)), elem.multiply(elem.cim(x), elem.cim(x))) if elem.iscplx(x)
          else elem.multiply(x, x) for x in d]
    r = elem.divide(sum_list(sq), float(n - ddof))
    if isinstance(r, Sym):
        r.prov = ('nonneg',)
    return r


def a_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=None, **kw):
    a = as_sym(a)
    r = _lowred(np.var, a, axis, keepdims, None, where, ddof=ddof)
    if r is not None:
        return r
    if where is not None and where is not True:
        raise Unsupported('var(where=)')
    return reduce_lists(a, axis, lambda v: _var_list(v, ddof), 'f', keepdims)


def a_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=None, **kw):
    return np_sqrt(a_var(a, axis, ddof=ddof, keepdims=keepdims, where=where))


def _minmax(npf, ef):
    def g(a, axis=None, out=None, keepdims=False, initial=None, where=None, **kw):
        a = as_sym(a)
        r = _lowred(npf, a, axis, keepdims, initial, where)
        if r is None:
            if where is not None and where is not True:
                raise Unsupported('max(where=)')
            if a.size == 0 and initial is None:
                raise ValueError('zero-size array to reduction operation %s which has no identity' % npf.__name__)
            r = reduce_lists(a, axis, lambda v: max_list(v, ef), a._k, keepdims, initial=initial)
        return _ret(out, r)
    return g


a_max = _minmax(np.max, elem.maximum)
a_min = _minmax(np.min, elem.minimum)
a_nanmax = _minmax(np.nanmax, elem.fmax)
a_nanmin = _minmax(np.nanmin, elem.fmin)


def a_prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **kw):
    a = as_sym(a)
    r = _lowred(np.prod, a, axis, keepdims, initial, where)
    if r is None:
        r = reduce_lists(a, axis, prod_list, 'i' if a._k == 'b' else a._k, keepdims, initial=initial)
    return _ret(out, r)


def a_any(a, axis=None, out=None, keepdims=False, where=None, initial=None, **kw):
    a = as_sym(a)
    r = _lowred(np.any, a, axis, keepdims, None, where)
    if r is None:
        r = reduce_lists(a, axis, any_list, 'b', keepdims)
    return _ret(out, r)


def a_all(a, axis=None, out=None, keepdims=False, where=None, initial=None, **kw):
    a = as_sym(a)
    r = _lowred(np.all, a, axis, keepdims, None, where)
    if r is None:
        r = reduce_lists(a, axis, all_list, 'b', keepdims)
    return _ret(out, r)


def a_count_nonzero(a, axis=None, keepdims=False):
    a = as_sym(a)
    return reduce_lists(a, axis, lambda v: sum_list([elem.ite(elem.tobool(x), 1, 0) for x in v]), 'i', keepdims)


def _cum(f, a, axis, dtype, out):
    r = a_cum(f, a if dtype is None else as_sym(a).astype(dtype), axis)
    return _ret(out, r)


def a_cum(f, a, axis=None, **kw):
    a = as_sym(a)
    k = 'i' if a._k == 'b' and f in (elem.add, elem.multiply) else a._k
    b = base(a)
    if axis is None:
        b = b.reshape(-1)
        axis = 0
    t = np.moveaxis(b, axis, -1)
    out = np.empty(t.shape, object)
    for p in np.ndindex(*t.shape[:-1]):
        acc = None
        for i, v in enumerate(t[p]):
            if isinstance(v, (bool, SymBool)) and k == 'i':
                v = cast_scalar(v, 'i')
            acc = v if acc is None else f(acc, v)
            out[p + (i,)] = cast_scalar(acc, k)
    return wrap(np.moveaxis(out, -1, axis), k)


def a_arg(better, a, axis=None, out=None, keepdims=False):
    a = as_sym(a)
    la = lower(a)
    if la is not None:
        return wrap_out((np.argmin if better is elem.less else np.argmax)(la, axis=axis))

    def f(v):
        if not v:
            raise ValueError('attempt to get argmin of an empty sequence')
        bi, bv = 0, v[0]
        for i in range(1, len(v)):
            c = better(v[i], bv)
            bi = elem.ite(c, i, bi)
            bv = elem.ite(c, v[i], bv)
        return bi
    return reduce_lists(a, axis, f, 'i')


def a_nonzero(a):
    a = as_sym(a)
    la = lower(a)
    if la is None:
        la = np.array([bool(elem.tobool(v)) for v in base(a).flat], bool).reshape(a.shape)
    return tuple(wrap_real(x) for x in np.nonzero(la))


def a_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **kw):
    a_min = min if a_min is None else a_min
    a_max = max if a_max is None else a_max
    r = a
    if a_min is not None:
        r = apply_ufunc(np.maximum, '__call__', (r, a_min), {})
    if a_max is not None:
        r = apply_ufunc(np.minimum, '__call__', (r, a_max), {})
    return _ret(out, r)


def a_dot(a, b, out=None):
    a, b = as_sym(a), as_sym(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if b.ndim == 1:
        return (a * b).sum(-1)
    if a.ndim == 1:
        return (a[:, None] * b).sum(-2) if b.ndim == 2 else _tdot(a, b)
    if a.ndim == 2 and b.ndim == 2:
        return a_matmul(a, b)
    return _tdot(a, b)


def _tdot(a, b):
    return wrap_or_scalar(np.tensordot(base(a), base(b), (-1, -2)), maxkind(a._k, b._k))


def a_matmul(a, b):
    a, b = as_sym(a), as_sym(b)
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1:
        a = a[None, :]
    if b1:
        b = b[:, None]
    if a.shape[-1] != b.shape[-2]:
        raise ValueError('matmul: mismatch in core dimension')
    r = (a[..., :, :, None] * b[..., None, :, :]).sum(-2)
    if a1 and b1:
        return r[..., 0, 0]
    if a1:
        return r[..., 0, :]
    if b1:
        return r[..., 0]
    return r


def a_sort(a, axis=-1, **kw):
    a = as_sym(a)
    la = lower(a)
    if la is not None:
        return wrap_real(np.sort(la, axis=axis))
    b = base(a)
    if axis is None:
        b = b.reshape(-1)
        axis = -1
    t = np.moveaxis(b, axis, -1).copy()
    for p in np.ndindex(*t.shape[:-1]):
        v = list(t[p])
        n = len(v)
        for i in range(n):
            for j in range(n - 1 - i):
                v[j], v[j + 1] = elem.minimum(v[j], v[j + 1]), elem.maximum(v[j], v[j + 1])
        for i in range(n):
            t[p + (i,)] = v[i]
    return wrap(np.moveaxis(t, -1, axis), a._k)


def a_argsort(a, axis=-1, **kw):
    a = as_sym(a)
    la = lower(a)
    if la is not None:
        return wrap_real(np.argsort(la, axis=axis, kind='stable'))
    b = base(a)
    if axis is None:
        b = b.reshape(-1)
        axis = -1
    t = np.moveaxis(b, axis, -1)
    out = np.empty(t.shape, object)
    import functools
    for p in np.ndindex(*t.shape[:-1]):
        v = t[p]
        order = []
        for i in range(len(v)):          # insertion sort: stable, forks on comparisons
            j = len(order)
            while j > 0 and bool(elem.less(v[i], v[order[j - 1]])):
                j -= 1
            order.insert(j, i)
        for i, o in enumerate(order):
            out[p + (i,)] = o
    return wrap(np.moveaxis(out, -1, axis), 'i')


def a_searchsorted(a, v, side='left', sorter=None):
    a = as_sym(a)
    if sorter is not None:
        a = a[as_sym(sorter)]
    la, lv = lower(a), lower(v)
    if la is not None and lv is not None and not is_sym(v):
        return wrap_out(np.searchsorted(la, lv, side))
    cmp = elem.less if side == 'left' else elem.less_equal
    av = list(base(a).reshape(-1))

    def f(x):
        return sum_list([elem.ite(cmp(y, x), 1, 0) for y in av])
    if isinstance(v, (np.ndarray, list, tuple)):
        return wrap(umap(f, base(as_sym(v))), 'i')
    return f(v)


def a_digitize(x, bins, right=False):
    bins = as_sym(bins)
    lb = lower(bins)
    dec = lb is not None and len(lb) > 1 and lb[0] > lb[-1]
    if dec:
        n = len(lb)
        r = a_searchsorted(bins[::-1], x, 'right' if right else 'left')
        return n - r
    return a_searchsorted(bins, x, 'left' if right else 'right')


def a_unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    a = as_sym(ar)
    la = lower(a)
    if la is not None:
        return wrap_out(np.unique(la, return_index, return_inverse, return_counts, axis))
    if axis is not None:
        raise Unsupported('unique(axis=)')
    v = list(base(a).reshape(-1))
    if a._k in 'ib' and not return_index and not return_inverse:
        dom = set()
        for x in v:
            d = elem.domain(x)
            if d is None or len(dom | d) > 12:
                dom = None
                break
            dom |= d
        if dom is not None:
            vals, cnt = [], []
            for d in sorted(dom):
                hits = [elem.equal(x, d) for x in v]
                if bool(any_list(hits)):
                    vals.append(d)
                    cnt.append(sum_list([elem.ite(h, 1, 0) if is_sym(h) else int(bool(h)) for h in hits]))
            res = obj_array(vals, a._k)
            return (res, obj_array(cnt, 'i')) if return_counts else res
    order = list(int(i) for i in base(a_argsort(obj_array(v, a._k))))
    groups = []
    for i in order:
        if groups and bool(elem.equal(v[i], v[groups[-1][0]])):
            groups[-1].append(i)
        else:
            groups.append([i])
    res = [obj_array([v[g[0]] for g in groups], a._k)]
    if return_index:
        res.append(obj_array([builtins.min(g) for g in groups], 'i'))
    if return_inverse:
        inv = [0] * len(v)
        for j, g in enumerate(groups):
            for i in g:
                inv[i] = j
        res.append(obj_array(inv, 'i', a.shape))
    if return_counts:
        res.append(obj_array([len(g) for g in groups], 'i'))
    return res[0] if len(res) == 1 else tuple(res)


def a_median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    a = as_sym(a)
    r = _lowred(np.median, a, axis, keepdims, None, None)
    if r is not None:
        return r

    def f(v):
        s = list(base(a_sort(obj_array(v))))
        n = len(s)
        if n % 2:
            return s[n // 2]
        return elem.divide(elem.add(s[n // 2 - 1], s[n // 2]), 2.0)
    return reduce_lists(a, axis, f, 'f', keepdims)


def a_quantile(a, q, axis=None, scale=1.0, **kw):
    a = as_sym(a)
    la = lower(a)
    ql = lower_deep(q)
    if la is not None:
        return wrap_out(np.quantile(la, np.asarray(ql) / scale, axis=axis, **kw))
    qs = np.asarray(ql, float) / scale

    def mkf(p):
        def f(v):
            s = list(base(a_sort(obj_array(v))))
            x = p * (len(s) - 1)
            i = int(math.floor(x))
            j = builtins.min(i + 1, len(s) - 1)
            return elem.add(s[i], elem.multiply(elem.subtract(s[j], s[i]), x - i))
        return f
    if qs.ndim == 0:
        return reduce_lists(a, axis, mkf(float(qs)), 'f')
    return as_sym([reduce_lists(a, axis, mkf(float(p)), 'f') for p in qs.reshape(-1)])


def bin_edges(a, bins, rng):
    if isinstance(bins, str):
        raise Unsupported('histogram(bins=str)')
    if isinstance(bins, (np.ndarray, list, tuple)):
        return as_sym(bins)
    n = bins.__index__()
    if rng is None:
        if a.size == 0:
            lo, hi = 0.0, 1.0
        else:
            lo, hi = a.min(), a.max()
    else:
        lo, hi = rng
    lo, hi = elem.norm(lo), elem.norm(hi)
    if bool(elem.equal(lo, hi)):
        lo, hi = elem.subtract(lo, 0.5), elem.add(hi, 0.5)
    if not is_sym(lo) and not is_sym(hi):
        return wrap_real(np.linspace(float(lo), float(hi), n + 1))
    return obj_array([elem.add(lo, elem.multiply(elem.subtract(hi, lo), i / n)) for i in range(n)] + [hi], 'f')


def in_bin(v, e, i, n):
    lo = elem.less_equal(e[i], v)
    hi = elem.less(v, e[i + 1]) if i < n - 1 else elem.less_equal(v, e[i + 1])
    return elem.and_(lo, hi)


def a_histogram(a, bins=10, range=None, density=None, weights=None, **kw):
    a = as_sym(a)
    la = lower(a)
    lw = None if weights is None else lower(as_sym(weights))
    if la is not None and (weights is None or lw is not None) and not has_sym_strict(bins) and not has_sym_strict(range):
        return wrap_out(np.histogram(la, lower_deep(bins), lower_deep(range), density=density, weights=lw))
    edges = bin_edges(a, bins, range)
    e = list(base(edges))
    n = len(e) - 1
    v = list(base(a).reshape(-1))
    w = list(base(as_sym(weights)).reshape(-1)) if weights is not None else [1] * len(v)
    k = 'i' if weights is None else kind_of(as_sym(weights))
    le = lower(edges)
    if la is not None and le is not None:
        ind = np.digitize(la.reshape(-1), le) - 1
        ind[la.reshape(-1) == le[-1]] = n - 1
        cnt = [sum_list([w[j] for j in np.nonzero(ind == i)[0]]) for i in builtins.range(n)]
    else:
        cnt = [sum_list([elem.ite(in_bin(x, e, i, n), ww, 0) for x, ww in zip(v, w)]) for i in builtins.range(n)]
    h = obj_array(cnt, k)
    if density:
        db = edges[1:] - edges[:-1]
        return h / db / h.sum(), edges
    return h, edges


def has_sym_strict(x):
    if isinstance(x, SymArray):
        return lower(x) is None
    if is_sym(x):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym_strict(v) for v in x)
    if isinstance(x, dict):
        return any(has_sym_strict(v) for v in x.values())
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(is_sym(v) for v in x.flat)
    return False


def a_histogramdd(sample, bins=10, range=None, density=None, weights=None):
    if isinstance(sample, (list, tuple)):
        cols = [list(base(as_sym(c)).reshape(-1)) for c in sample]
    else:
        s = as_sym(sample)
        if s.ndim == 1:
            s = s[:, None]
        cols = [list(base(s)[:, d]) for d in builtins.range(s.shape[1])]
    D = len(cols)
    if not isinstance(bins, (list, tuple, np.ndarray)):
        bins = [bins] * D
    elif isinstance(bins, SymArray) and bins.ndim == 1 and len(bins) != D:
        bins = [bins] * D
    rngs = [None] * D if range is None else list(range)
    edges = [bin_edges(obj_array(cols[d], 'f'), bins[d], rngs[d]) for d in builtins.range(D)]
    N = len(cols[0])
    w = list(base(as_sym(weights)).reshape(-1)) if weights is not None else [1.0] * N
    shape = tuple(len(e) - 1 for e in edges)
    conc = not any(has_sym_strict(c) for c in cols) and not any(has_sym_strict(e) for e in edges)
    H = zeros(shape, 'c' if weights is not None and kind_of(as_sym(weights)) == 'c' else 'f')
    if conc:
        buckets = {}
        le = [lower(e) for e in edges]
        inds = []
        for d in builtins.range(D):
            c = np.asarray([elem.norm(x) for x in cols[d]], float)
            i = np.digitize(c, le[d]) - 1
            i[c == le[d][-1]] = shape[d] - 1
            inds.append(i)
        for j in builtins.range(N):
            p = tuple(int(inds[d][j]) for d in builtins.range(D))
            if all(0 <= p[d] < shape[d] for d in builtins.range(D)):
                buckets.setdefault(p, []).append(w[j])
        for p, vs in buckets.items():
            H[p] = sum_list(vs)
    else:
        es = [list(base(e)) for e in edges]
        memb = [[[in_bin(cols[d][j], es[d], i, shape[d]) for i in builtins.range(shape[d])] for j in builtins.range(N)] for d in builtins.range(D)]
        for p in np.ndindex(*shape):
            vs = []
            for j in builtins.range(N):
                c = True
                for d in builtins.range(D):
                    c = elem.and_(c, memb[d][j][p[d]])
                    if c is False:
                        break
                if c is not False:
                    vs.append(elem.ite(c, w[j], 0.0))
            H[p] = sum_list(vs) if vs else 0.0
    if density:
        raise Unsupported('histogramdd(density=True)')
    return H, edges


def a_histogram2d(x, y, bins=10, range=None, density=None, weights=None):
    x, y = as_sym(x), as_sym(y)
    if isinstance(bins, (np.ndarray,)) or (isinstance(bins, (list, tuple)) and len(bins) not in (1, 2)):
        bins = [bins, bins]
    H, e = a_histogramdd([x, y], bins, range, density, weights)
    return H, e[0], e[1]


def a_bincount(x, weights=None, minlength=0):
    x = as_sym(x)
    vals = list(base(x).reshape(-1))
    if x._k == 'i' and minlength and weights is None and 1 <= builtins.sum(is_sym(v) for v in vals) <= 2:
        if all(bool(elem.greater_equal(v, 0)) and bool(elem.less(v, int(minlength))) for v in vals):
            return obj_array([sum_list([elem.ite(elem.tobool(elem.equal(v, k)), 1, 0) for v in vals]) for k in range(int(minlength))], 'i')
    ind = norm_index(x) if x._k == 'i' else lower(x)
    if x._k != 'i':
        raise TypeError('Cannot cast array data to int64 according to the rule safe')
    ind = np.asarray(ind).reshape(-1)
    if (ind < 0).any():
        raise ValueError("'list' argument must have no negative elements")
    n = builtins.max(int(ind.max()) + 1 if ind.size else 0, int(minlength))
    if weights is None:
        return wrap_real(np.bincount(ind, minlength=n))
    w = list(base(as_sym(weights)).reshape(-1))
    if len(w) != ind.size:
        raise ValueError('The weights and list don\'t have the same length.')
    acc = [[] for _ in range(n)]
    for i, v in zip(ind, w):
        acc[int(i)].append(v)
    return obj_array([sum_list(a) for a in acc], 'f')


def a_where(c, *xy):
    if not xy:
        return a_nonzero(c)
    x, y = xy
    lc, lx, ly = lower(c) if not isinstance(c, (list, tuple)) else None, lower(x), lower(y)
    k = maxkind(kind_of(x), kind_of(y))
    f = np.frompyfunc(lambda cc, a, b: elem.ite(elem.tobool(cc), a, b), 3, 1)
    args = [_cell(v) if is_sym(v) else uarg(v) for v in (c, x, y)]
    args = [v if isinstance(v, np.ndarray) else _cell2(v) for v in args]
    r = f(*args)
    if not isinstance(r, np.ndarray):
        return as_sym(cast_scalar(r, k))
    fr = r.reshape(-1)
    for i in range(fr.size):
        fr[i] = cast_scalar(fr[i], k)
    return wrap(r, k)


def _cell2(v):
    a = np.empty((), object)
    a[()] = elem.norm(v)
    return a


def a_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('interp(period=)')
    xp, fp = as_sym(xp), as_sym(fp)
    lx, lxp, lfp = lower(x) if not isinstance(x, (list, tuple)) else lower(as_sym(x)), lower(xp), lower(fp)
    if lx is not None and lxp is not None and lfp is not None and not is_sym(left) and not is_sym(right):
        return wrap_out(np.interp(lx, lxp, lfp, left, right))
    P, F = list(base(xp)), list(base(fp))
    n = len(P)
    left = F[0] if left is None else elem.norm(left)
    right = F[-1] if right is None else elem.norm(right)

    def f(v):
        r = right
        # from the right end towards the left
        r = elem.ite(elem.equal(v, P[-1]), F[-1], right)
        for j in range(n - 2, -1, -1):
            c = elem.less(v, P[j + 1])
            if c is False:
                continue
            if c is True and j > 0 and elem.less(v, P[j]) is True:
                continue
            sl = elem.divide(elem.subtract(F[j + 1], F[j]), elem.subtract(P[j + 1], P[j]))
            seg = elem.add(F[j], elem.multiply(elem.subtract(v, P[j]), sl))
            r = elem.ite(c, seg, r)
        return elem.ite(elem.less(v, P[0]), left, r)
    if isinstance(x, (np.ndarray, list, tuple)):
        return wrap(umap(f, base(as_sym(x))), 'f')
    return wrap_scalar(f(elem.norm(x)))


def a_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    f = np.frompyfunc(lambda x, y: elem.less_equal(elem.absolute(elem.subtract(x, y)),
                                                   elem.add(atol, elem.multiply(rtol, elem.absolute(y)))), 2, 1)
    la, lb = lower(a), lower(b)
    if la is not None and lb is not None:
        return wrap_out(np.isclose(la, lb, rtol, atol, equal_nan))
    r = f(*[_cell(v) if is_sym(v) else uarg(v) for v in (a, b)])
    return wrap(r, 'b') if isinstance(r, np.ndarray) else r


def a_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    posinf = np.finfo(float).max if posinf is None else posinf
    neginf = np.finfo(float).min if neginf is None else neginf

    def g(v):
        if not is_sym(v) and isinstance(v, float):
            if math.isnan(v):
                return float(nan)
            if math.isinf(v):
                return float(posinf if v > 0 else neginf)
        if isinstance(v, complex):
            return complex(g(v.real), g(v.imag))
        if isinstance(v, SymC):
            return SymC(g(v.re), g(v.im))
        return v
    if isinstance(x, SymC):
        return g(x)
    if is_sym(x):
        return x
    a = as_sym(x)
    if a._k not in 'fc':
        return a.copy() if copy else a
    r = wrap(umap(g, base(a)), a._k)
    if not copy and isinstance(x, SymArray):
        x[...] = r
        return x
    return r if r.ndim else r.item()


def _nanred(sel, red):
    def g(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
        a = as_sym(a)

        def f(v):
            return red([x for x in v if is_sym(x) or x == x])
        return reduce_lists(a, axis, f, 'i' if a._k == 'b' else (a._k if sel == 'sum' else ('c' if a._k == 'c' else 'f')), keepdims)
    return g


a_nansum = _nanred('sum', sum_list)
a_nanmean = _nanred('mean', lambda v: elem.divide(sum_list(v), float(len(v))) if v else math.nan)
a_nanvar = _nanred('var', _var_list)


def a_nanstd(a, *r, **k):
    return np_sqrt(a_nanvar(a, *r, **k))


def a_norm(x, ord=None, axis=None, keepdims=False):
    a = as_sym(x)
    la = lower(a)
    if la is not None:
        return wrap_out(np.linalg.norm(la, ord, axis, keepdims))
    if ord in (None, 2, 'fro'):
        return np_sqrt((a * a.conj()).real.sum(axis, keepdims=keepdims))
    if ord == 1:
        return abs(a).sum(axis, keepdims=keepdims)
    if ord == np.inf:
        return abs(a).max(axis, keepdims=keepdims)
    raise Unsupported('norm ord %r' % ord)


def a_round(a, decimals=0, out=None):
    if isinstance(a, np.ndarray) or isinstance(a, (list, tuple)):
        return _ret(out, as_sym(a).round(decimals))
    return elem.round_(a, decimals)


def a_isin(element, test_elements, assume_unique=False, invert=False, kind=None):
    t = list(base(as_sym(test_elements)).reshape(-1))
    a = as_sym(element)
    r = umap(lambda v: any_list([elem.equal(v, x) for x in t]) if t else False, base(a))
    r = wrap(r, 'b')
    return ~r if invert else r


def a_array_equal(a, b, equal_nan=False):
    a, b = as_sym(a), as_sym(b)
    if a.shape != b.shape:
        return False
    return (a == b).all()


def a_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = a_isclose(a, b, rtol, atol, equal_nan)
    return r.all() if isinstance(r, np.ndarray) else r


def a_copy(a, order='K', subok=False):
    return as_sym(a).copy()


def like(fill):
    def g(a, *args, **kw):
        dtype = kw.get('dtype', None)
        shape = kw.get('shape', None)
        if type(a) is np.ndarray and a.dtype.kind == 'O' and infer_kind(a) == 'O' and dtype is None and shape is None and not args and fill != 'full':
            return getattr(np, fill + '_like')(a)
        a = as_sym(a)
        if fill == 'full':
            fv = args[0] if args else kw['fill_value']
            if len(args) > 1 and dtype is None:
                dtype = args[1]
        else:
            fv = {'zeros': 0, 'ones': 1, 'empty': 0}[fill]
            if args and dtype is None:
                dtype = args[0]
        k = kind_of_dtype(dtype) if dtype is not None else a._k
        r = zeros(a.shape if shape is None else lower_deep(shape), k)
        if fill != 'zeros':
            r[...] = fv
        return r
    return g


def a_full(shape, fill_value, dtype=None, **kw):
    k = kind_of_dtype(dtype) if dtype is not None else kind_of(fill_value)
    shape = norm_shape(shape)
    r = zeros(shape, k)
    r[...] = fill_value
    return r


def norm_shape(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(int(s) for s in shape)
    if isinstance(shape, np.ndarray):
        if shape.ndim == 0:
            return (int(shape.item()),)
        return tuple(int(s) for s in shape)
    return (shape.__index__(),)


def a_ndim(a):
    return as_sym(a).ndim


def lincomb(row, xs):
    """sum_i row[i]*xs[i] for concrete coefficients."""
    terms = []
    for c, x in zip(row, xs):
        if c == 0:
            continue
        terms.append(elem.multiply(c, x) if c != 1 else x)
    r = sum_list(terms) if terms else 0.0
    return flat(r)


def flat(v):
    if isinstance(v, Sym):
        s = z3.simplify(v.e, som=True)
        return elem.fold(Sym(s, v.isint))
    if isinstance(v, SymC):
        return elem.mkc(flat(v.re), flat(v.im))
    return v


def linear_apply(f, x, cplx=False):
    """Apply a real, known-linear array function f to a symbolic array via its
    matrix, obtained from f itself on the unit impulses."""
    x = as_sym(x)
    lx = lower(x)
    if lx is not None:
        return wrap_out(f(lx))
    if x._k == 'c':
        re, im = linear_apply(f, x.real), linear_apply(f, x.imag)
        return re + 1j * im
    b = base(x).reshape(-1)
    n = b.size
    cols, shape = [], None
    z = np.zeros(x.shape)
    y0 = np.asarray(f(z))
    if np.any(y0 != 0):
        raise Unsupported('operator is not linear')
    # only symbolic cells need their own column; concrete ones are superposed
    conc = np.zeros(n)
    symi = []
    for i in range(n):
        if is_sym(b[i]):
            symi.append(i)
        else:
            conc[i] = b[i]
    yc = np.asarray(f(conc.reshape(x.shape)))
    for i in symi:
        u = np.zeros(n)
        u[i] = 1.0
        cols.append(np.asarray(f(u.reshape(x.shape))))
    M = np.array([c.reshape(-1) for c in cols])
    big = np.abs(M).max() if M.size else 1.0
    M[np.abs(M) < 1e-15 * max(big, 1e-300)] = 0
    vals = [elem.tonum(b[i]) for i in symi]
    out = np.empty(yc.size, object)
    ycf = yc.reshape(-1)
    for j in range(yc.size):
        out[j] = lincomb(list(M[:, j].tolist()) + [1], vals + [complex(ycf[j]) if np.iscomplexobj(yc) else float(ycf[j])])
    k = 'c' if np.iscomplexobj(M) or np.iscomplexobj(yc) else 'f'
    out = out.reshape(yc.shape)
    if yc.ndim == 0:
        return wrap_scalar(cast_scalar(out.item(), k))
    fo = out.reshape(-1)
    for i in range(fo.size):
        fo[i] = cast_scalar(fo[i], k)
    return wrap(out, k)


def a_gradient(f, *varargs, axis=None, edge_order=1):
    va = [lower_deep(v) for v in varargs]
    f = as_sym(f)
    if axis is not None and not isinstance(axis, tuple):
        return linear_apply(lambda z: np.gradient(z, *va, axis=axis, edge_order=edge_order), f)
    axes = tuple(range(f.ndim)) if axis is None else axis
    if len(axes) == 1:
        return linear_apply(lambda z: np.gradient(z, *va, axis=axes[0], edge_order=edge_order), f)
    out = []
    for j, ax in enumerate(axes):
        v = va if len(va) == 1 else ([va[j]] if va else [])
        out.append(linear_apply(lambda z: np.gradient(z, *v, axis=ax, edge_order=edge_order), f))
    return out


def a_trapezoid(y, x=None, dx=1.0, axis=-1):
    y = as_sym(y)
    if x is None:
        d = dx
    else:
        x = as_sym(x)
        if x.ndim == 1:
            d = x[1:] - x[:-1]
            sh = [1] * y.ndim
            sh[axis] = d.shape[0]
            d = d.reshape(sh)
        else:
            d = apply_function(np.diff, (x,), {'axis': axis})
    s1 = [slice(None)] * y.ndim
    s2 = [slice(None)] * y.ndim
    s1[axis] = slice(1, None)
    s2[axis] = slice(None, -1)
    return (d * (y[tuple(s1)] + y[tuple(s2)]) / 2.0).sum(axis)


def a_convolve(a, v, mode='full'):
    a, v = as_sym(a), as_sym(v)
    if lower(v) is not None:
        lv = lower(v)
        return linear_apply(lambda z: np.convolve(z, lv, mode), a)
    if lower(a) is not None:
        la = lower(a)
        return linear_apply(lambda z: np.convolve(la, z, mode), v)
    n, m = len(a), len(v)
    full = [sum_list([elem.multiply(a[i], v[j - i]) for i in range(n) if 0 <= j - i < m]) for j in range(n + m - 1)]
    full = obj_array(full)
    if mode == 'full':
        return full
    if mode == 'same':
        L = builtins.max(n, m)
        s = (n + m - 1 - L) // 2
        return full[s:s + L]
    L = builtins.max(n, m) - builtins.min(n, m) + 1
    s = (n + m - 1 - L) // 2
    return full[s:s + L]


def a_select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = a_where(c, v, r)
    return r


def a_apply_along_axis(func1d, axis, arr, *args, **kw):
    a = as_sym(arr)
    t = wrap(np.moveaxis(base(a), axis, -1), a._k)
    res = None
    out = {}
    for p in np.ndindex(*t.shape[:-1]):
        out[p] = func1d(t[p], *args, **kw)
    first = next(iter(out.values()))
    if isinstance(first, np.ndarray) and first.ndim:
        r = np.empty(t.shape[:-1] + first.shape, object)
        for p, v in out.items():
            r[p] = base(as_sym(v))
        r = from_obj(r)
        return wrap(np.moveaxis(base(r), -1, axis), r._k)
    r = np.empty(t.shape[:-1], object)
    for p, v in out.items():
        r[p] = elem.norm(v)
    return from_obj(r)


def a_argwhere(a):
    nz = a_nonzero(a)
    return apply_function(np.transpose, (as_sym(list(nz)),), {}) if nz else zeros((0, 0), 'i')


def a_flatnonzero(a):
    return a_nonzero(as_sym(a).reshape(-1))[0]


def a_diff(a, n=1, axis=-1, prepend=None, append=None, **kw):
    a = as_sym(a)
    ends = []
    for e in (prepend, append):
        if e is not None:
            e = as_sym(e)
            if e.ndim == 0:
                sh = list(a.shape)
                sh[axis] = 1
                e = a_broadcast_to(e, tuple(sh))
        ends.append(e)
    if ends != [None, None]:
        a = as_sym(a_concatenate([v for v in (ends[0], a, ends[1]) if v is not None], axis=axis))
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis] = slice(1, None)
        s2[axis] = slice(None, -1)
        a = (a[tuple(s1)] != a[tuple(s2)]) if a._k == 'b' else a[tuple(s1)] - a[tuple(s2)]
    return a


def a_einsum(sub, *ops, **kw):
    ops = [as_sym(o) for o in ops]
    if '->' in sub:
        lhs, rhs = sub.replace(' ', '').split('->')
    else:
        lhs = sub.replace(' ', '')
        letters = sorted(set(lhs.replace(',', '')))
        rhs = ''.join(c for c in letters if lhs.count(c) == 1)
    ins = lhs.split(',')
    if '.' in sub:
        raise Unsupported('einsum ellipsis')
    allc = list(rhs) + [c for c in sorted(set(lhs.replace(',', ''))) if c not in rhs]
    dim = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dim[c] = n
    prod = None
    for s, o in zip(ins, ops):
        b = base(o)
        # repeated letters: diagonal
        s2 = s
        while len(set(s2)) < len(s2):
            for c in s2:
                if s2.count(c) > 1:
                    i = s2.index(c)
                    j = s2.index(c, i + 1)
                    b = np.diagonal(b, axis1=i, axis2=j)
                    s2 = s2[:i] + s2[i + 1:j] + s2[j + 1:] + c
                    break
        order = [s2.index(c) for c in allc if c in s2]
        b = b.transpose(order)
        b = b.reshape([dim[c] if c in s2 else 1 for c in allc])
        t = wrap(b, o._k)
        prod = t if prod is None else prod * t
    full = apply_function(np.broadcast_to, (prod, tuple(dim[c] for c in allc)), {})
    if len(allc) > len(rhs):
        return full.sum(tuple(range(len(rhs), len(allc))))
    return full


def a_ediff1d(a, *r, **k):
    return a_diff(as_sym(a).reshape(-1))


def a_outer(a, b, out=None):
    a, b = as_sym(a).reshape(-1), as_sym(b).reshape(-1)
    return a[:, None] * b[None, :]


def a_broadcast_to(a, shape, subok=False):
    a = as_sym(a)
    return wrap(np.broadcast_to(base(a), norm_shape(shape)), a._k)


def a_angle(z, deg=False):
    raise Unsupported('angle of symbolic values')


def a_real(x):
    return x.real if hasattr(x, 'real') else as_sym(x).real


def a_imag(x):
    return x.imag if hasattr(x, 'imag') else as_sym(x).imag


def a_iscomplexobj(x):
    return kind_of(x) == 'c'


def a_insert(arr, obj, values, axis=None):
    a = as_sym(arr)
    v = as_sym(values)
    k = a._k
    r = np.insert(base(a), norm_index(as_sym(obj)) if isinstance(obj, (list, np.ndarray)) else obj, base(v.astype(KDT[k])), axis)
    return wrap(r, k)


def a_append(arr, values, axis=None):
    a, v = as_sym(arr), as_sym(values)
    if axis is None:
        a, v = a.reshape(-1), v.reshape(-1)
        axis = 0
    return a_concatenate((a, v), axis)


def a_concatenate(arrs, axis=0, out=None, dtype=None, **kw):
    arrs = list(arrs)
    if any(type(x) is np.ndarray and x.dtype.kind == 'O' for x in arrs):
        return np.concatenate(arrs, axis)               # arrays of Python objects
    arrs = [as_sym(x) for x in arrs]
    k = maxkind(*[x._k for x in arrs]) if dtype is None else kind_of_dtype(dtype)
    return wrap(np.concatenate([base(x.astype(KDT[k])) for x in arrs], axis), k)


def a_stack(arrs, axis=0, **kw):
    arrs = [as_sym(x) for x in arrs]
    k = maxkind(*[x._k for x in arrs])
    return wrap(np.stack([base(x.astype(KDT[k])) for x in arrs], axis), k)


def _stacker(npf):
    def g(tup, **kw):
        arrs = [as_sym(x) for x in tup]
        k = maxkind(*[x._k for x in arrs])
        return wrap(npf([base(x.astype(KDT[k])) for x in arrs]), k)
    return g


def a_pad(array, pad_width, mode='constant', **kw):
    a = as_sym(array)
    pw = lower_deep(pad_width)
    if mode == 'constant':
        cv = kw.get('constant_values', 0)
        ind = np.pad(np.arange(a.size).reshape(a.shape), pw, mode='constant', constant_values=-1)
        flatv = base(a).reshape(-1)
        out = np.empty(ind.shape, object)
        if isinstance(cv, (tuple, list, np.ndarray)):
            cvs = np.pad(np.zeros(a.shape), pw, mode='constant', constant_values=lower_deep(cv))
        else:
            cvs = None
        for p in np.ndindex(*ind.shape):
            i = int(ind[p])
            out[p] = flatv[i] if i >= 0 else cast_scalar(cv if cvs is None else cvs[p], a._k)
        return wrap(out, a._k)
    if callable(mode) or mode in ('mean', 'maximum', 'minimum', 'median', 'linear_ramp', 'empty'):
        raise Unsupported('pad mode %r' % (mode,))
    ind = np.pad(np.arange(a.size).reshape(a.shape), pw, mode=mode, **{k: v for k, v in kw.items() if k == 'reflect_type'})
    return wrap(base(a).reshape(-1)[ind], a._k)


def a_broadcast_arrays(*args, **kw):
    arrs = [as_sym(x) for x in args]
    r = np.broadcast_arrays(*[base(x) for x in arrs])
    return tuple(wrap(x, a._k) for x, a in zip(r, arrs))


def a_meshgrid(*xi, **kw):
    arrs = [as_sym(x) for x in xi]
    r = np.meshgrid(*[base(x) for x in arrs], **kw)
    return [wrap(x.copy() if kw.get('copy', True) else x, a._k) for x, a in zip(r, arrs)]


def a_structural(npf):
    """Pure data movement: same element kinds in and out."""
    def g(*args, **kw):
        k = None
        nargs = []
        for i, x in enumerate(args):
            if isinstance(x, SymArray):
                if i == 0:
                    k = x._k
                    nargs.append(base(x))
                else:
                    nargs.append(lower_deep(x))
            elif i == 0 and isinstance(x, (list, tuple)) and has_sym(x):
                x = as_sym(x)
                k = x._k
                nargs.append(base(x))
            elif i == 0 and is_sym(x):
                x = as_sym(x)
                k = x._k
                nargs.append(base(x))
            else:
                nargs.append(_int_deep(x))
        kw = {a: _int_deep(b) for a, b in kw.items()}
        if k is None:
            return wrap_out(npf(*nargs, **kw))
        r = npf(*nargs, **kw)
        if isinstance(r, (list, tuple)):
            return type(r)(wrap(x, k) for x in r)
        return wrap_or_scalar(r, k) if not (isinstance(r, np.ndarray) and r.ndim == 0) else wrap(r, k)
    return g


def _int_deep(x):
    if isinstance(x, SymArray):
        return norm_index(x)
    if isinstance(x, Sym):
        return x.__index__()
    if isinstance(x, (list, tuple)):
        return type(x)(_int_deep(v) for v in x)
    return x


def a_asarray(x, dtype=None, **kw):
    k = kind_of_dtype(dtype) if dtype is not None else None
    if k is not None and k not in KINDS:
        return np.array(lower_deep(x) if has_sym(x) else x, dtype=dtype)
    r = as_sym(x)
    if isinstance(r, np.ndarray) and not isinstance(r, SymArray) and r.dtype.kind in 'SU':
        from . import fsmodel
        if fsmodel.TOKENS:
            return r.view(fsmodel.TokArray) if k is None else fsmodel.cast_text(r, k)
        if k is not None:
            return wrap_real(r.astype(KDT[k]))
    if k is not None and isinstance(r, SymArray):
        if r._k != k:
            r = r.astype(KDT[k])
        d = np.dtype(lower_deep(getattr(dtype, '__symex_real__', dtype)))
        if d != (r._dt or KDT[k]):
            r = set_dt(r.copy(), d)
    return r


def a_array(x, dtype=None, copy=True, ndmin=0, **kw):
    if isinstance(x, (range, map, filter, zip)) or hasattr(x, '__next__'):
        x = list(x) if isinstance(x, range) else x
    r = a_asarray(x, dtype)
    if isinstance(r, SymArray):
        if r is x or (isinstance(x, np.ndarray) and copy):
            r = r.copy()
        while r.ndim < ndmin:
            r = r[None]
    elif isinstance(r, np.ndarray) and isinstance(x, np.ndarray):
        r = r.copy()
    return r


STRUCT = ['reshape', 'transpose', 'moveaxis', 'rollaxis', 'swapaxes', 'ravel', 'squeeze', 'expand_dims', 'roll', 'flip',
          'fliplr', 'flipud', 'rot90', 'repeat', 'tile', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'diagonal', 'tril', 'triu', 'diag', 'diagflat',
          'delete', 'split', 'array_split', 'hsplit', 'vsplit', 'dsplit', 'take', 'resize', 'trim_zeros', 'permute_dims', 'matrix_transpose',
          'take_along_axis', 'compress', 'unstack', 'sliding_window_view']

FUNCS = {
    'sum': a_sum, 'mean': a_mean, 'average': a_average, 'var': a_var, 'std': a_std, 'max': a_max, 'min': a_min, 'amax': a_max,
    'amin': a_min, 'prod': a_prod, 'any': a_any, 'all': a_all, 'count_nonzero': a_count_nonzero, 'nanmax': a_nanmax, 'nanmin': a_nanmin,
    'cumsum': lambda a, axis=None, dtype=None, out=None: _cum(elem.add, a, axis, dtype, out), 'cumprod': lambda a, axis=None, dtype=None, out=None: _cum(elem.multiply, a, axis, dtype, out),
    'nansum': a_nansum, 'nanmean': a_nanmean, 'nanstd': a_nanstd, 'nanvar': a_nanvar,
    'argmin': lambda a, axis=None, **k: a_arg(elem.less, a, axis), 'argmax': lambda a, axis=None, **k: a_arg(elem.greater, a, axis),
    'nanargmin': lambda a, axis=None, **k: a_arg(elem.less, a, axis), 'nanargmax': lambda a, axis=None, **k: a_arg(elem.greater, a, axis),
    'nonzero': a_nonzero, 'argwhere': a_argwhere, 'flatnonzero': a_flatnonzero, 'where': a_where, 'clip': a_clip, 'dot': a_dot,
    'vdot': lambda a, b: a_dot(as_sym(a).reshape(-1).conj(), as_sym(b).reshape(-1)), 'inner': lambda a, b: a_dot(a, as_sym(b).T),
    'sort': a_sort, 'argsort': a_argsort, 'searchsorted': a_searchsorted, 'digitize': a_digitize, 'unique': a_unique, 'median': a_median,
    'quantile': a_quantile, 'percentile': lambda a, q, axis=None, **k: a_quantile(a, q, axis, 100.0, **k),
    'nanmedian': a_median,
    'histogram': a_histogram, 'histogramdd': a_histogramdd, 'histogram2d': a_histogram2d, 'bincount': a_bincount,
    'histogram_bin_edges': lambda a, bins=10, range=None, weights=None: bin_edges(as_sym(a), bins, range),
    'interp': a_interp, 'isclose': a_isclose, 'allclose': a_allclose, 'array_equal': a_array_equal, 'nan_to_num': a_nan_to_num,
    'norm': a_norm, 'round': a_round, 'around': a_round, 'isin': a_isin, 'in1d': a_isin, 'copy': a_copy,
    'zeros_like': like('zeros'), 'ones_like': like('ones'), 'empty_like': like('empty'), 'full_like': like('full'),
    'gradient': a_gradient, 'trapezoid': a_trapezoid, 'convolve': a_convolve, 'select': a_select,
    'apply_along_axis': a_apply_along_axis, 'diff': a_diff, 'ediff1d': a_ediff1d, 'einsum': a_einsum, 'outer': a_outer, 'broadcast_to': a_broadcast_to,
    'real': a_real, 'imag': a_imag, 'iscomplexobj': a_iscomplexobj, 'isrealobj': lambda x: not a_iscomplexobj(x), 'angle': a_angle,
    'insert': a_insert, 'append': a_append, 'concatenate': a_concatenate, 'stack': a_stack, 'vstack': _stacker(np.vstack),
    'hstack': _stacker(np.hstack), 'dstack': _stacker(np.dstack), 'column_stack': _stacker(np.column_stack), 'pad': a_pad,
    'broadcast_arrays': a_broadcast_arrays, 'meshgrid': a_meshgrid, 'ptp': lambda a, axis=None: as_sym(a).ptp(axis),
    'array': a_array, 'asarray': a_asarray, 'asanyarray': a_asarray, 'ascontiguousarray': a_asarray, 'asfortranarray': a_asarray,
    'full': a_full, 'ndim': a_ndim, 'shape': lambda a: as_sym(a).shape, 'size': lambda a, axis=None: as_sym(a).size if axis is None else as_sym(a).shape[axis],
    'matmul': a_matmul,
    'trace': lambda a, *r, **k: as_sym(a).trace(*r, **k),
    'isreal': lambda x: as_sym(x).imag == 0, 'fix': lambda x, out=None: apply_ufunc(np.trunc, '__call__', (x,), {}),
    'sinc': lambda x: wrap_or_scalar(umap(elem.sinc, base(as_sym(x))), 'f'),
    'result_type': lambda *a: KDT[maxkind(*[kind_of(x) if not isinstance(x, (np.dtype, type)) else kind_of_dtype(x) for x in a])],
    'can_cast': np.can_cast, 'array_repr': repr, 'array_str': str,
    'may_share_memory': lambda a, b, *r: np.may_share_memory(base(a), base(b)), 'shares_memory': lambda a, b, *r: np.shares_memory(base(a), base(b)),
    'ix_': lambda *a: tuple(wrap_real(x) for x in np.ix_(*[norm_index(as_sym(v)) for v in a])),
    'unravel_index': lambda i, shape, **k: wrap_out(np.unravel_index(norm_index(as_sym(i)) if isinstance(i, (np.ndarray, list)) else i.__index__(), shape)),
    'ravel_multi_index': lambda mi, dims, **k: wrap_out(np.ravel_multi_index(tuple(norm_index(as_sym(m)) if not isinstance(m, Sym) else m.__index__() for m in mi), dims, **k)),
    'put': None, 'copyto': None, 'fill_diagonal': None,
}
for _n in STRUCT:
    _f = getattr(np, _n, None) or (getattr(np.lib.stride_tricks, _n, None))
    if _f is not None:
        FUNCS[_n] = a_structural(_f)


def a_copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        dst[where] = as_sym(src)[where] if isinstance(src, np.ndarray) and src.ndim else src


def a_put(a, ind, v, mode='raise'):
    a.reshape(-1)[ind] = v


def a_fill_diagonal(a, val, wrap=False):
    v = as_sym(val).reshape(-1)
    for i in range(builtins.min(a.shape)):
        a[(i,) * a.ndim] = v[i % v.size]


def a_put_along_axis(arr, indices, values, axis=-1):
    if not isinstance(arr, SymArray):
        raise Unsupported('writing symbolic values into a plain array')
    i = norm_index(as_sym(indices))
    if axis is None:
        a_put(arr, i, values)
        return
    grid = list(np.indices(i.shape, sparse=True))
    grid[axis] = i
    arr[tuple(grid)] = values


def a_cov(m, y=None, rowvar=True, bias=False, ddof=None, **kw):
    if kw:
        raise Unsupported('cov(%s)' % ', '.join(kw))
    x = as_sym(m)
    x = x.reshape(1, -1) if x.ndim < 2 else x if rowvar else x.T
    if y is not None:
        z = as_sym(y)
        x = a_concatenate([x, z.reshape(1, -1) if z.ndim < 2 else z if rowvar else z.T])
    n = x.shape[1] - ((0 if bias else 1) if ddof is None else ddof)
    d = x - x.mean(axis=1, keepdims=True)
    return (a_dot(d, d.T) / n).squeeze() if x.shape[0] > 1 else (d * d).sum() / n


def a_corrcoef(x, y=None, rowvar=True, **kw):
    c = as_sym(a_cov(x, y, rowvar))
    if c.ndim == 0:
        return 1.0
    s = as_sym(apply_ufunc(np.sqrt, '__call__', (obj_array([base(c)[i, i] for i in range(c.shape[0])], 'f'),), {}))
    return c / s.reshape(-1, 1) / s.reshape(1, -1)


def a_compress(condition, a, axis=None, out=None):
    c = norm_index(as_sym(condition))
    a = as_sym(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    idx = [slice(None)] * a.ndim
    idx[axis] = np.flatnonzero(c)
    return _ret(out, a[tuple(idx)])


FUNCS['copyto'] = a_copyto
FUNCS['put'] = a_put
FUNCS['fill_diagonal'] = a_fill_diagonal
FUNCS['put_along_axis'] = a_put_along_axis
FUNCS['compress'] = a_compress
FUNCS['cov'] = a_cov
FUNCS['corrcoef'] = a_corrcoef


def apply_function(func, args, kwargs):
    name = func.__name__
    mod = getattr(func, '__module__', '') or ''
    if any(getattr(type(x), '_symq', False) or isinstance(x, (list, tuple)) and any(getattr(type(v), '_symq', False) for v in x) for x in list(args) + list(kwargs.values())):
        from . import units
        return units.qfunc(func, args, kwargs)
    if 'fft' in mod:
        from . import models
        return models.fft_function(name, args, kwargs)
    f = FUNCS.get(name)
    if f is not None:
        return f(*args, **kwargs)
    # everything concrete: the real function
    if not has_sym_strict(args) and not has_sym_strict(kwargs):
        return wrap_out(func(*lower_deep(list(args)), **lower_deep(kwargs)))
    # default: numpy's own code on plain object arrays
    k = None

    def strip(x):
        nonlocal k
        if isinstance(x, SymArray):
            k = x._k if k is None else maxkind(k, x._k)
            return base(x)
        if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
            return type(x)(strip(v) for v in x)
        return x
    try:
        r = func(*[strip(a) for a in args], **{a: strip(b) for a, b in kwargs.items()})
    except (TypeError, AttributeError) as ex:
        raise Unsupported('numpy.%s of symbolic values (%s)' % (name, ex))
    return rewrap(r)


def rewrap(r):
    if isinstance(r, np.ndarray) and r.dtype == object and not isinstance(r, SymArray):
        return from_obj(r)
    if type(r) in (tuple, list):
        return type(r)(rewrap(v) for v in r)
    return wrap_out(r)
