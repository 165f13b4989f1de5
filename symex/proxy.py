"""Proxies standing in for numpy, scipy, ... inside the symbolic copy."""
import builtins as _b
import importlib
import math
import sys
import types

import numpy as np

from . import elem
from .core import Sym, SymBool, SymC, Unsupported, is_sym, eng
from .sarray import (SymArray, FUNCS, KDT, apply_function, apply_ufunc, a_array, a_asarray, as_sym, base, cast_scalar, from_obj, has_sym,
                     has_sym_strict, kind_of, kind_of_dtype, lower, lower_deep, norm_index, norm_shape, obj_array, rewrap, umap, wrap,
                     wrap_out, wrap_real, wrap_scalar, zeros, KINDS, max_list, sum_list)
from . import models


# ------------------------------------------------------------- scalar types
class _TypeMeta(type):
    def __instancecheck__(cls, x):
        real = cls.__symex_real__
        if isinstance(x, Sym):
            if cls.__symex_np__:
                k = 'i' if x.isint else 'f'
                return issubclass(KDT[k].type, real)
            return (real is int and x.isint) or (real is float and not x.isint)
        if isinstance(x, SymBool):
            return real is bool or issubclass(np.bool_, real)
        if isinstance(x, SymC):
            return real is complex or issubclass(np.complex128, real)
        return isinstance(x, real)

    def __subclasscheck__(cls, c):
        c = getattr(c, '__symex_real__', c)
        return issubclass(c, cls.__symex_real__)

    def __eq__(cls, o):
        return cls is o or o is cls.__symex_real__ or getattr(o, '__symex_real__', None) is cls.__symex_real__

    def __hash__(cls):
        return hash(cls.__symex_real__)

    def __call__(cls, *a, **k):
        real = cls.__symex_real__
        if not a:
            return real()
        x = a[0]
        if isinstance(x, SymArray):
            if x.ndim == 0 or (x.size == 1 and not cls.__symex_np__):
                x = x.reshape(-1)[0] if x.ndim else x.item()
            elif cls.__symex_np__:
                return x.astype(real)
            else:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
        elif isinstance(x, (list, tuple)) and cls.__symex_np__ and has_sym(x):
            return as_sym(x).astype(real)
        if is_sym(x):
            if real is float and isinstance(x, SymC):
                raise TypeError("float() argument must be a string or a real number, not 'complex'")
            return cast_scalar(x, kind_of_dtype(real))
        if isinstance(x, (str, bytes)) and len(a) == 1:
            from . import fsmodel
            v = fsmodel.parse(x, real)
            if v is not None:
                return v
        if real is complex and len(a) == 2 and (is_sym(a[0]) or is_sym(a[1])):
            return elem.add(elem.multiply(a[1], 1j), a[0])
        r = real(*lower_deep(list(a)), **k)
        return wrap_out(r) if isinstance(r, np.ndarray) else r

    def __getattr__(cls, n):
        return getattr(cls.__symex_real__, n)

    def __repr__(cls):
        return repr(cls.__symex_real__)


def fake_type(real, isnp):
    ns = {'__symex_real__': real, '__symex_np__': isnp}
    try:
        ns['dtype'] = np.dtype(real)
    except TypeError:
        pass
    return _TypeMeta(real.__name__, (), ns)


FLOAT = fake_type(float, False)
INT = fake_type(int, False)
COMPLEX = fake_type(complex, False)
BOOL = fake_type(bool, False)
NPTYPES = {}
for _n in ['float64', 'float32', 'float16', 'int64', 'int32', 'int16', 'int8', 'uint8', 'uint16', 'uint32', 'uint64', 'complex128',
           'complex64', 'bool_', 'longdouble', 'intp', 'number', 'floating', 'integer', 'generic', 'inexact', 'signedinteger', 'complexfloating',
           'double', 'single', 'csingle', 'cdouble', 'half', 'int_', 'intc', 'bool', 'longlong', 'uintp', 'ubyte', 'byte', 'short']:
    if hasattr(np, _n):
        NPTYPES[_n] = fake_type(getattr(np, _n), True)


# --------------------------------------------------------------- builtins
def b_isinstance(x, t):
    if isinstance(t, tuple):
        return any(b_isinstance(x, u) for u in t)
    if isinstance(t, types.UnionType):
        return any(b_isinstance(x, u) for u in t.__args__)
    if t in (float, int, bool, complex):
        t = {float: FLOAT, int: INT, bool: BOOL, complex: COMPLEX}[t]
    if is_sym(x):
        import numbers
        if t is numbers.Number or t is numbers.Real and not isinstance(x, SymC):
            return True
        if t is numbers.Integral:
            return kind_of(x) == 'i'
    return isinstance(x, t)


def b_issubclass(c, t):
    return issubclass(getattr(c, '__symex_real__', c), tuple(getattr(u, '__symex_real__', u) for u in t) if isinstance(t, tuple) else getattr(t, '__symex_real__', t))


def b_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, Sym):
            return INT if x.isint else NPTYPES['float64']
        if isinstance(x, SymBool):
            return NPTYPES['bool_']
        t = type(x)
        if t is SymArray or t is np.ndarray:
            return NDARRAY
        return {float: FLOAT, int: INT, bool: BOOL, complex: COMPLEX}.get(t, t)
    return type(*a)


def b_max(*a, key=None, **kw):
    return _mm(_b.max, elem.maximum, a, key, kw)


def b_min(*a, key=None, **kw):
    return _mm(_b.min, elem.minimum, a, key, kw)


def _mm(real, ef, a, key, kw):
    vals = list(a[0]) if len(a) == 1 else list(a)
    if key is None and any(is_sym(v) for v in vals):
        return max_list(vals, ef)
    if not vals and 'default' in kw:
        return kw['default']
    return real(vals, key=key)


def b_round(x, n=None):
    if is_sym(x) or isinstance(x, SymArray):
        return x.__round__(n) if n is not None else x.__round__()
    return _b.round(x, n) if n is not None else _b.round(x)


def b_abs(x):
    return abs(x)


def b_print(*a, **k):
    return None


def b_sorted(it, key=None, reverse=False):
    return _b.sorted(it, key=key, reverse=reverse)


def b_divmod(a, b):
    return a // b, a % b


def b_pow(a, b, m=None):
    return a ** b if m is None else _b.pow(a, b, m)


def b_str(*a, **k):
    return _b.str(*a, **k)


# --------------------------------------------------------------- proxies
class Proxy:
    def __init__(self, real, over=None):
        self.__dict__['_real'] = real
        self.__dict__['_over'] = over if over is not None else {}
        self.__dict__['_cache'] = {}
        self.__dict__['__name__'] = real.__name__

    def __getattr__(self, n):
        c = self._cache
        if n in c:
            return c[n]
        o = self._over
        if n in o:
            v = o[n]
        else:
            v = getattr(self._real, n)
            v = proxy_value(v, self._real.__name__, n)
        c[n] = v
        return v

    def __setattr__(self, n, v):
        self._cache[n] = v

    def __dir__(self):
        return dir(self._real)

    @property
    def __all__(self):
        return [n for n in getattr(self._real, '__all__', dir(self._real)) if not n.startswith('_')]


def proxy_value(v, modname, n):
    if isinstance(v, types.ModuleType):
        if v.__name__.split('.')[0] in PROXIED:
            return proxy_for(v)
        return v
    if isinstance(v, np.ufunc):
        return UfuncProxy(v)
    if isinstance(v, type):
        if issubclass(v, BaseException) or v in (np.ndarray, np.dtype):
            return v
        if modname == 'numpy' and n in NPTYPES:
            return NPTYPES[n]
        if modname.startswith('numpy'):
            return v
        return class_wrapper(v)
    if callable(v):
        return func_wrapper(v, modname)
    if isinstance(v, np.ndarray):
        return wrap_out(v)
    return v


def class_wrapper(cls):
    class W:
        __symex_real__ = cls

        def __new__(c, *a, **k):
            return cls(*lower_deep(list(a)), **lower_deep(k))
    W.__name__ = cls.__name__
    W.__qualname__ = cls.__qualname__
    return W


def func_wrapper(f, modname):
    isnp = modname.split('.')[0] == 'numpy'

    def g(*a, **k):
        if isnp and (has_sym(a) or has_sym(k)):
            return apply_function(f, a, k)
        r = f(*lower_deep(list(a)), **lower_deep(k))
        return wrap_out(r)
    g.__name__ = getattr(f, '__name__', 'f')
    g.__wrapped_real__ = f
    return g


class UfuncProxy:
    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__
        self.nin = u.nin
        self.nout = u.nout

    def __call__(self, *a, **k):
        if len(a) > self._u.nin:
            k['out'] = a[self._u.nin]
            a = a[:self._u.nin]
        if has_sym(a) or has_sym(k) :
            return apply_ufunc(self._u, '__call__', a, k)
        with np.errstate(all='ignore'):
            return wrap_out(self._u(*a, **lower_deep(k)))

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return apply_ufunc(self._u, 'reduce', (as_sym(a),), {'axis': axis, 'keepdims': keepdims, 'initial': initial, 'where': where, 'out': out})

    def accumulate(self, a, axis=0, **k):
        return apply_ufunc(self._u, 'accumulate', (as_sym(a),), {'axis': axis})

    def outer(self, a, b, **k):
        return apply_ufunc(self._u, 'outer', (as_sym(a), as_sym(b)), k)

    def at(self, a, i, *b):
        return apply_ufunc(self._u, 'at', (a, i) + b, {})


class GridProxy:
    def __init__(self, real):
        self._r = real

    def __getitem__(self, k):
        k = norm_index(k)
        return wrap_out(self._r[lower_deep(k) if not isinstance(k, slice) else k])


class CProxy:
    """np.r_ / np.c_"""
    def __init__(self, real):
        self._r = real

    def __getitem__(self, k):
        if has_sym_strict(k):
            if self._r is np.r_:
                return apply_function(np.concatenate, ([np.atleast_1d(as_sym(v)) for v in k],), {})
            return apply_function(np.column_stack, ([as_sym(v) for v in k] if isinstance(k, tuple) else [as_sym(k)],), {})
        return wrap_out(self._r[lower_deep(k)])


def np_zeros(shape, dtype=float, order='C', **k):
    kd = kind_of_dtype(dtype)
    kd = 'f' if kd is None else kd
    if kd not in KINDS:
        return np.zeros(lower_deep(shape), dtype)
    from .sarray import set_dt
    return set_dt(zeros(norm_shape(shape), kd), dtype)


def np_ones(shape, dtype=float, order='C', **k):
    r = np_zeros(shape, dtype)
    r[...] = 1
    return r


def np_fromfunction(f, shape, dtype=float, **kw):
    idx = wrap_out(np.indices(norm_shape(shape), dtype=int)).astype(dtype)
    return f(*idx, **kw)


class np_vectorize:
    def __init__(self, pyfunc=None, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        self.f, self.otypes, self.excluded = pyfunc, otypes, excluded or set()
        if signature is not None:
            raise Unsupported('vectorize(signature=)')
        self.__name__ = getattr(pyfunc, '__name__', 'vectorized')

    def __call__(self, *args, **kw):
        names = list(kw)
        allv = list(args) + [kw[n] for n in names]
        exc = [i in self.excluded for i in range(len(args))] + [n in self.excluded for n in names]
        arrs = [None if e else base(as_sym(v)) for v, e in zip(allv, exc)]
        sh = np.broadcast_shapes(*[a.shape for a in arrs if a is not None])
        barr = [None if a is None else np.broadcast_to(a, sh) for a in arrs]
        out = None
        for p in np.ndindex(*sh):
            vals = [allv[i] if barr[i] is None else wrap_scalar(barr[i][p]) for i in range(len(allv))]
            r = self.f(*vals[:len(args)], **dict(zip(names, vals[len(args):])))
            if out is None:
                multi = isinstance(r, tuple)
                out = [np.empty(sh, object) for _ in range(len(r) if multi else 1)]
            for o, v in zip(out, r if multi else (r,)):
                o[p] = elem.norm(v)
        if out is None:
            raise ValueError('cannot call `vectorize` on size 0 inputs unless `otypes` is set')
        res = []
        for i, o in enumerate(out):
            o = from_obj(o)
            if self.otypes:
                o = o.astype(self.otypes[i] if not isinstance(self.otypes, str) else self.otypes[i])
            res.append(o)
        return tuple(res) if multi else res[0]


def np_frompyfunc(f, nin, nout):
    def g(*a):
        r = np.frompyfunc(f, nin, nout)(*[base(as_sym(x)) if isinstance(x, (np.ndarray, list)) else x for x in a])
        return rewrap(r)
    return g


def np_fromiter(it, dtype, count=-1):
    return as_sym(list(it)).astype(dtype)


def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not has_sym_strict((start, stop)):
        return wrap_out(np.linspace(lower_deep(start), lower_deep(stop), int(num), endpoint, retstep, lower_deep(dtype)))
    n = num.__index__()
    div = n - 1 if endpoint else n
    step = elem.divide(elem.subtract(stop, start), float(div)) if div > 0 else math.nan
    v = [elem.add(start, elem.multiply(step, float(i))) for i in range(n)]
    if endpoint and n > 1:
        v[-1] = elem.multiply(stop, 1.0)
    r = obj_array(v, 'f')
    if dtype is not None:
        r = r.astype(dtype)
    return (r, step) if retstep else r


def np_logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None):
    y = np_linspace(start, stop, num, endpoint)
    return apply_ufunc(np.power, '__call__', (base, y), {})


def np_arange(*a, dtype=None, **kw):
    if has_sym_strict(a):
        a = [elem.norm(x) for x in a]
        if all(kind_of(x) in 'ib' for x in a):
            a = [x.__index__() for x in a]
        else:
            start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
            n = elem.trunc_int(elem.ceil(elem.divide(elem.subtract(stop, start), step)))
            n = _b.max(0, n.__index__())
            return obj_array([elem.add(start, elem.multiply(step, float(i))) for i in range(n)], 'f')
    return wrap_out(np.arange(*lower_deep(list(a)), dtype=lower_deep(dtype), **kw))


def np_ndenumerate(a):
    a = as_sym(a)
    for p in np.ndindex(*a.shape):
        yield p, a[p]


def np_nditer(op, flags=None, op_flags=None, op_dtypes=None, order='K', casting='safe', **kw):
    """Elements of one or several arrays as 0-d views (no external loop, no multi-index)."""
    if flags or kw:
        raise Unsupported('nditer with flags')
    many = isinstance(op, (list, tuple))
    ops = [as_sym(x) for x in (op if many else [op])]
    sh = np.broadcast_shapes(*[x.shape for x in ops])

    def gen():
        for p in np.ndindex(*sh):
            r = [x[p + (Ellipsis,)] if x.shape == sh else a_broadcast(x, sh)[p + (Ellipsis,)] for x in ops]
            yield tuple(r) if many else r[0]
    return gen()


def a_broadcast(x, sh):
    return FUNCS['broadcast_to'](x, sh)


def np_isscalar(x):
    return is_sym(x) or np.isscalar(x)


def np_iterable(x):
    return False if is_sym(x) else np.iterable(x)


def np_trapz(*a, **k):
    raise AttributeError("module 'numpy' has no attribute 'trapz'")


def np_require(a, dtype=None, requirements=None):
    return a_asarray(a, dtype)


RANDOM_HOOK = [None]


class RandomProxy:
    """Every draw is a fresh bounded symbolic input."""
    def __getattr__(self, n):
        h = RANDOM_HOOK[0]
        if h is None:
            raise Unsupported('random numbers outside a harness')
        return getattr(h, n)


TORCH_NAMES = ('torch', 'jax', 'tensorflow', 'cupy', 'h5py', 'py21cmfast')
PROXIED = {'numpy', 'scipy', 'skimage', 'sklearn', 'math', 'joblib', 'tqdm', 'numba', 'multiprocessing', 'concurrent', 'time', 'pickle', 'json', 'yaml', 'pandas'}
_PROX = {}
_TABLE = None


def proxy_for(mod):
    global _TABLE
    name = mod.__name__
    if name in _PROX:
        return _PROX[name]
    if _TABLE is None:
        _TABLE = models.build()
        _TABLE['numpy'] = numpy_over()
        _TABLE.update(other_over())
    if name == 'numpy.random':
        p = RandomProxy()
    else:
        if name == 'numpy':
            over = _TABLE['numpy']
        else:
            over = _TABLE.get(name, {})
        p = Proxy(mod, over)
    _PROX[name] = p
    return p


def _npf(f):
    """A numpy-level model: used when an argument is (or contains) a SymArray,
    the real function otherwise."""
    def g(*a, **k):
        return f(*a, **k)
    return g


def numpy_over():
    o = {}
    for n, f in FUNCS.items():
        if n in ('norm', 'sliding_window_view') or not hasattr(np, n):
            continue
        o[n] = _model_or_real(n, f)
    o.update({'zeros': np_zeros, 'empty': np_zeros, 'ones': np_ones, 'full': FUNCS['full'], 'array': a_array, 'asarray': a_asarray,
              'asanyarray': a_asarray, 'ascontiguousarray': a_asarray, 'fromfunction': np_fromfunction, 'vectorize': np_vectorize, 'frompyfunc': np_frompyfunc,
              'fromiter': np_fromiter, 'linspace': np_linspace, 'logspace': np_logspace, 'arange': np_arange, 'ndenumerate': np_ndenumerate, 'nditer': np_nditer, 'isscalar': np_isscalar,
              'iterable': np_iterable, 'require': np_require,
              'mgrid': GridProxy(np.mgrid), 'ogrid': GridProxy(np.ogrid), 'r_': CProxy(np.r_), 'c_': CProxy(np.c_), 's_': np.s_, 'ndarray': NDARRAY,
              'ndindex': lambda *s: np.ndindex(*[norm_shape(v) if isinstance(v, (tuple, list, np.ndarray)) else int(v) for v in s]),
              'errstate': np.errstate, 'seterr': lambda **k: None, 'iinfo': lambda t: np.iinfo(lower_deep(t)), 'finfo': lambda t=float: np.finfo(lower_deep(t)), 'dtype': lambda d, *a, **k: np.dtype(lower_deep(d), *a, **k),
              'issubdtype': lambda a, b: np.issubdtype(lower_deep(a), lower_deep(b)),
              'set_printoptions': lambda *a, **k: None, 'squeeze': o['squeeze']})
    from . import fsmodel
    o.update(fsmodel.numpy_over())
    return o


def _model_or_real(n, f):
    real = getattr(np, n)

    def g(*a, **k):
        if has_sym(a) or has_sym(k):
            return f(*a, **k)
        return wrap_out(real(*lower_deep(list(a)), **lower_deep(k)))
    g.__name__ = n
    return g


def ident(f=None, *a, **k):
    if callable(f) and not a and not k:
        return f
    return lambda h: h


class _Delayed:
    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return (self.f, a, k)


class _Parallel:
    def __init__(self, *a, **k):
        pass

    def __call__(self, it):
        return [f(*a, **k) for f, a, k in it]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _Tqdm:
    def __init__(self, it=None, desc=None, total=None, *a, **k):
        self.it = it
        self.n = 0
        self.total = total if total is not None else (len(it) if hasattr(it, '__len__') else None)

    def __iter__(self):
        return iter(self.it)

    def __len__(self):
        return len(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def update(self, *a):
        pass
    set_description = close = set_postfix = write = refresh = update


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray)

    def __subclasscheck__(cls, c):
        return issubclass(c, np.ndarray)

    def __eq__(cls, o):
        return o is cls or o is np.ndarray

    def __hash__(cls):
        return hash(np.ndarray)

    def __getattr__(cls, n):
        return getattr(np.ndarray, n)

    def __call__(cls, shape, dtype=float, buffer=None, **k):
        if isinstance(buffer, _Shm):
            if buffer.store.array is None:
                buffer.store.array = zeros(norm_shape(shape), kind_of_dtype(dtype))
            return buffer.store.array
        if buffer is None and not k:
            return zeros(norm_shape(shape), kind_of_dtype(dtype))
        raise Unsupported('ndarray(buffer=...)')


class NDARRAY(metaclass=_NdMeta):
    pass


class _Shm:
    """Shared memory inside one process: one array per name."""
    stores = {}

    def __init__(self, name=None, create=False, size=0):
        if create:
            name = 'shm%d' % len(self.stores)
            self.stores[name] = types.SimpleNamespace(array=None)
        self.name, self.size = name, size
        self.store = self.stores[name]
        self.buf = self

    def close(self):
        pass

    unlink = close


class _Pool:
    def __init__(self, *a, **k):
        pass

    def map(self, f, *its, chunksize=1):
        return [f(*v) for v in zip(*its)]

    def starmap(self, f, it, chunksize=None):
        return [f(*v) for v in it]

    def imap(self, f, it, chunksize=1):
        return iter([f(v) for v in it])
    imap_unordered = imap

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def apply_async(self, f, args=(), kwds={}):
        r = f(*args, **kwds)

        class R:
            def get(self, timeout=None):
                return r
        return R()

    def submit(self, f, *a, **k):
        r = f(*a, **k)

        class R:
            def result(self, timeout=None):
                return r
        return R()

    def close(self):
        pass
    join = terminate = shutdown = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _unsup(w):
    raise Unsupported(w)


def other_over():
    import time as _t
    T = {}
    T['joblib'] = {'Parallel': _Parallel, 'delayed': _Delayed, 'cpu_count': lambda *a: 1}
    for n in ('tqdm', 'tqdm.auto', 'tqdm.std', 'tqdm.notebook'):
        T[n] = {'tqdm': _Tqdm, 'trange': lambda *a, **k: range(*a)}
    nb = {n: ident for n in ('jit', 'njit', 'vectorize', 'guvectorize', 'generated_jit')}
    nb['prange'] = range
    T['numba'] = nb
    T['multiprocessing'] = {'Pool': _Pool, 'cpu_count': lambda: 1}
    T['multiprocessing.shared_memory'] = {'SharedMemory': _Shm}
    T['concurrent.futures'] = {'ThreadPoolExecutor': _Pool, 'ProcessPoolExecutor': _Pool}
    from . import fsmodel
    T['pickle'] = {'dump': fsmodel.pickle_dump, 'load': fsmodel.pickle_load, 'dumps': lambda *a, **k: _unsup('pickle.dumps'), 'loads': lambda *a, **k: _unsup('pickle.loads')}
    T['json'], T['yaml'], T['pandas'] = fsmodel.text_module('json'), fsmodel.text_module('yaml'), fsmodel.pandas_module()
    T['time'] = {'sleep': lambda *a: None, 'time': _t.time}
    return T


# pass-through behaviour for modules whose functions must not be lowered
for _m in ('time', 'multiprocessing', 'joblib', 'tqdm', 'numba', 'concurrent'):
    pass


class _TypeProxyMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __eq__(cls, o):
        return o is cls or o is type

    def __hash__(cls):
        return hash(type)

    def __call__(cls, *a, **k):
        return b_type(*a, **k) if not k else type(*a, **k)


class b_type_cls(metaclass=_TypeProxyMeta):
    pass
