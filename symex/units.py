"""Symbolic astropy quantities: a value of the engine together with a real astropy unit.

All unit arithmetic is done by astropy's own unit objects; only the numbers are symbolic."""
import numpy as np

from .core import Unsupported, is_sym

Quantity = UnitBase = dimless = rad = None


def _load():
    global Quantity, UnitBase, dimless, rad
    if Quantity is None:
        from astropy import units as u
        Quantity, UnitBase, dimless, rad = u.Quantity, u.UnitBase, u.dimensionless_unscaled, u.rad


def isq(x):
    return type(x) is SymQ


def is_unit(x):
    return hasattr(x, 'physical_type') and hasattr(x, 'bases') and not hasattr(x, 'value')


def split(x):
    """(value, unit or None)"""
    if isq(x):
        return x._v, x._u
    if is_unit(x):
        return 1.0, x
    if not is_sym(x) and hasattr(x, 'unit') and hasattr(x, 'value'):
        from .sarray import wrap_out
        v = x.value
        return (wrap_out(v) if isinstance(v, np.ndarray) else v), x.unit
    return x, None


def factor(a, b, eq=None):
    eq = eq or []
    f0, f1, f2 = a.to(b, 0.0, eq), a.to(b, 1.0, eq), a.to(b, 2.0, eq)
    if abs(f0) > 1e-12 * abs(f1) or abs(f2 - 2 * f1) > 1e-12 * abs(f1):
        raise Unsupported('non-linear unit conversion %s -> %s' % (a, b))
    return float(f1)


def scale(v, f):
    return v if f == 1 else v * f


def to_plain(x):
    v, u = split(x)
    return v if u is None else scale(v, factor(u, dimless))


def _special(v):
    try:
        return not is_sym(v) and bool(np.all((np.asarray(v, float) == 0) | ~np.isfinite(np.asarray(v, float))))
    except Exception:
        return False


SAME = {'add', 'subtract', 'maximum', 'minimum', 'fmax', 'fmin', 'hypot', 'remainder', 'fmod'}
CMP = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal'}
KEEP = {'absolute', 'fabs', 'negative', 'positive', 'conjugate', 'rint', 'floor', 'ceil', 'trunc'}
BOOL = {'isfinite', 'isnan', 'isinf', 'sign', 'signbit'}


def qop(name, args):
    _load()
    from . import elem, sarray

    def ap(*vals):
        if any(isinstance(v, np.ndarray) for v in vals) or not any(is_sym(v) for v in vals):
            return sarray.apply_ufunc(elem.NP_BY_NAME.get(name) or getattr(np, name), '__call__', vals, {})
        return elem.ELEM_BY_NAME[name](*vals)

    p = [split(a) for a in args]
    if name in ('multiply', 'divide', 'true_divide'):
        (a, ua), (b, ub) = p
        ua, ub = ua or dimless, ub or dimless
        return SymQ(ap(a, b), ua * ub if name == 'multiply' else ua / ub)
    if name == 'floor_divide':
        (a, ua), (b, ub) = p
        return SymQ(ap(a, scale(b, factor(ub or dimless, ua or dimless))), dimless)
    if name in SAME or name in CMP:
        (a, ua), (b, ub) = p
        if ua is None and not (ub is not None and _special(a)):
            ua = dimless
        if ub is None and not _special(b):
            ub = dimless
        if ua is None:
            ua = ub
        try:
            if ub is not None and ub != ua:
                b = scale(b, factor(ub, ua))
        except Exception:
            if name == 'equal':
                return False
            if name == 'not_equal':
                return True
            raise
        r = ap(a, b)
        return r if name in CMP else SymQ(r, ua)
    if name == 'arctan2':
        (a, ua), (b, ub) = p
        return SymQ(ap(a, scale(b, factor(ub or dimless, ua or dimless))), rad)
    if name == 'power':
        (a, ua), (b, ub) = p
        e = to_plain(args[1])
        if ua is None or ua == dimless:
            return SymQ(ap(a, e), dimless)
        if is_sym(e):
            raise Unsupported('symbolic power of a dimensional quantity')
        e = float(np.asarray(e))
        e = int(e) if e == int(e) else e
        return SymQ(ap(a, e), ua ** e)
    a, ua = p[0]
    if name in KEEP:
        return SymQ(ap(a), ua)
    if name in BOOL:
        return ap(a)
    if name == 'sqrt':
        return SymQ(ap(a), ua ** 0.5)
    if name == 'cbrt':
        return SymQ(ap(a), ua ** (1.0 / 3))
    if name == 'square':
        return SymQ(ap(a), ua ** 2)
    if name == 'reciprocal':
        return SymQ(ap(a), ua ** -1)
    if name in ('sin', 'cos', 'tan'):
        return SymQ(ap(scale(a, factor(ua, rad))), dimless)
    if name in ('arcsin', 'arccos', 'arctan'):
        return SymQ(ap(to_plain(args[0])), rad)
    if len(args) == 1:
        return SymQ(ap(to_plain(args[0])), dimless)
    raise Unsupported('%s of quantities' % name)


# functions returning the unit of their arguments
UNITFUNC = {'sum', 'nansum', 'mean', 'median', 'max', 'min', 'amax', 'amin', 'std', 'concatenate', 'stack', 'vstack', 'hstack', 'diff', 'array', 'asarray', 'reshape',
            'transpose', 'roll', 'cumsum', 'squeeze', 'ravel', 'copy', 'broadcast_to', 'swapaxes', 'moveaxis', 'where', 'interp_', 'abs', 'sort', 'linspace', 'arange', 'atleast_1d', 'nanmean'}


def qfunc(func, args, kw):
    _load()
    from . import sarray
    name = func.__name__
    unit = None

    def scan(x):
        nonlocal unit
        if isq(x) or (hasattr(x, 'unit') and hasattr(x, 'value') and not is_sym(x)):
            unit = unit or x.unit
        elif isinstance(x, (list, tuple)):
            for v in x:
                scan(v)
    scan(args)
    scan(list(kw.values()))
    keep = name in UNITFUNC

    def conv(x):
        if isq(x) or (hasattr(x, 'unit') and hasattr(x, 'value') and not is_sym(x)):
            v, u = split(x)
            return scale(v, factor(u, unit if keep else dimless))
        if isinstance(x, (list, tuple)):
            return type(x)(conv(v) for v in x)
        return x
    if name in ('argmin', 'argmax', 'argsort', 'isnan', 'isfinite', 'argwhere', 'nonzero', 'size', 'shape', 'ndim'):
        r = sarray.apply_function(func, [split(a)[0] for a in args], kw)
        return r
    r = sarray.apply_function(func, [conv(a) for a in args], {k: conv(v) for k, v in kw.items()})
    return SymQ(r, unit) if keep else r


def _op(name, rev=False):
    def f(self, o):
        if o is None or isinstance(o, (str, dict)):
            return NotImplemented
        return qop(name, (o, self) if rev else (self, o))
    return f


class SymQ:
    _symq = True
    __array_priority__ = 30000.0

    def __init__(self, v, u):
        _load()
        self._v, self._u = v, u

    @property
    def __class__(self):
        _load()
        return Quantity

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != '__call__':
            raise Unsupported('ufunc method %s of a quantity' % method)
        return qop(ufunc.__name__, inputs)

    def __array_function__(self, func, types, args, kw):
        return qfunc(func, args, kw)

    value = property(lambda s: s._v)
    unit = property(lambda s: s._u)
    shape = property(lambda s: getattr(s._v, 'shape', ()))
    ndim = property(lambda s: len(s.shape))
    size = property(lambda s: int(np.prod(s.shape)))
    isscalar = property(lambda s: s.shape == ())
    T = property(lambda s: SymQ(s._v.T, s._u))
    si = property(lambda s: s._dec(s._u.si))
    cgs = property(lambda s: s._dec(s._u.cgs))

    def _dec(self, u):
        b = u / u.scale if hasattr(u, 'scale') else u
        return self.to(b)

    def decompose(self, bases=()):
        return self._dec(self._u.decompose(bases=bases) if bases else self._u.decompose())

    def to(self, unit, equivalencies=(), copy=True):
        from astropy.units import Unit
        unit = Unit(unit)
        return SymQ(scale(self._v, factor(self._u, unit, list(equivalencies))), unit)

    def to_value(self, unit=None, equivalencies=()):
        return self._v if unit is None else self.to(unit, equivalencies)._v

    def __len__(self):
        return len(self._v)

    def __getitem__(self, i):
        return SymQ(self._v[i], self._u)

    def __setitem__(self, i, x):
        v, u = split(x)
        self._v[i] = scale(v, factor(u or dimless, self._u)) if not (u is None and _special(v)) else v

    def __iter__(self):
        return (SymQ(v, self._u) for v in self._v)

    def __float__(self):
        return float(to_plain(self))

    def __bool__(self):
        return bool(self._v)

    def __repr__(self):
        return '<quantity %s>' % (self._u,)
    __str__ = __repr__

    def __format__(self, spec):
        from . import fsmodel
        return '%s %s' % (format(self._v, spec), self._u)

    def __hash__(self):
        return id(self)

    def __neg__(self):
        return SymQ(-self._v, self._u)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymQ(abs(self._v), self._u)

    def _meth(name):
        def f(self, *a, **k):
            return SymQ(getattr(self._v, name)(*a, **k), self._u)
        return f
    for _n in ('sum', 'mean', 'max', 'min', 'std', 'copy', 'reshape', 'flatten', 'ravel', 'transpose', 'swapaxes', 'squeeze', 'astype', 'item'):
        locals()[_n] = _meth(_n)
    del _n

    def argmin(self, *a, **k):
        return self._v.argmin(*a, **k)

    def argmax(self, *a, **k):
        return self._v.argmax(*a, **k)

    __add__ = _op('add'); __radd__ = _op('add', True)
    __sub__ = _op('subtract'); __rsub__ = _op('subtract', True)
    __mul__ = _op('multiply'); __rmul__ = _op('multiply', True)
    __truediv__ = _op('divide'); __rtruediv__ = _op('divide', True)
    __floordiv__ = _op('floor_divide'); __rfloordiv__ = _op('floor_divide', True)
    __mod__ = _op('remainder'); __rmod__ = _op('remainder', True)
    __pow__ = _op('power'); __rpow__ = _op('power', True)
    __lt__ = _op('less'); __le__ = _op('less_equal'); __gt__ = _op('greater'); __ge__ = _op('greater_equal')
    __eq__ = _op('equal'); __ne__ = _op('not_equal')


def install():
    """Let astropy hand symbolic values over to SymQ (inert for real arrays)."""
    try:
        import astropy.units as u
    except ImportError:
        return
    _load()
    if getattr(Quantity, '_symex', False):
        return
    from .sarray import has_sym, as_sym, SymArray
    new0, uf0, af0 = Quantity.__new__, Quantity.__array_ufunc__, Quantity.__array_function__

    def sym(x):
        return isq(x) or (not isinstance(x, np.ndarray) or type(x) is SymArray) and has_sym(x)

    def new(cls, value, unit=None, *a, **k):
        if isinstance(value, (list, tuple)) and any(isq(v) for v in value):
            value = qfunc(np.array, (list(value),), {})
        if isq(value):
            return value.to(unit) if unit is not None else value
        if sym(value):
            return SymQ(as_sym(value) if isinstance(value, (list, tuple)) else value, u.Unit(unit) if unit is not None else dimless)
        return new0(cls, value, unit, *a, **k)

    def uf(self, ufunc, method, *inputs, **kw):
        if any(sym(x) for x in inputs):
            if method != '__call__':
                raise Unsupported('ufunc method %s of a quantity' % method)
            return qop(ufunc.__name__, inputs)
        return uf0(self, ufunc, method, *inputs, **kw)

    def af(self, func, types, args, kw):
        if any(sym(x) for x in args) or any(sym(x) for x in kw.values()):
            return qfunc(func, args, kw)
        return af0(self, func, types, args, kw)
    Quantity.__new__ = staticmethod(new)
    Quantity.__array_ufunc__ = uf
    Quantity.__array_function__ = af
    Quantity._symex = True
