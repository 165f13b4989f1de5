"""Files holding symbolic data.

Binary files written by the code (or a harness) are kept as sequences of typed
slots (byte offset, dtype, value); reading a slot with its own type returns the
value, any other reading of bytes that depend on symbols returns unconstrained
values.  An empty-content file of the same length exists on disk so that
directory listings work.  Text files are real files in which a symbolic number
is a unique decimal literal that float()/int() map back to the symbol."""
import builtins
import io
import os
import re

import numpy as np

from . import core, elem
from .core import Sym, SymBool, SymC, Unsupported, is_sym
from .sarray import (SymArray, as_sym, base, has_sym, has_sym_strict, kind_of_dtype, lower, lower_deep, obj_array, wrap, wrap_out, wrap_real, zeros, KDT,
                     cast_scalar)

STORE = {}      # path -> _Node
TOKENS = {}     # text -> value


def reset():
    STORE.clear()
    TOKENS.clear()
    SENT.clear()


class _Node:
    def __init__(self):
        self.slots = {}     # offset -> (dtype, value)
        self.size = 0
        self.obj = None     # pickled / saved object

    def put(self, off, dt, v):
        n = dt.itemsize
        for o in [o for o, (d, _) in self.slots.items() if o < off + n and off < o + d.itemsize]:
            del self.slots[o]
        self.slots[off] = (dt, v)
        self.size = max(self.size, off + n)

    def get(self, off, dt):
        s = self.slots.get(off)
        if s is not None and s[0] == dt:
            return s[1]
        raw, ok = bytearray(dt.itemsize), True
        for o, (d, v) in self.slots.items():
            if o < off + dt.itemsize and off < o + d.itemsize:
                if is_sym(v):
                    ok = False
                    break
                b = np.array(v, d).tobytes()
                for i in range(d.itemsize):
                    if off <= o + i < off + dt.itemsize:
                        raw[o + i - off] = b[i]
        if ok:
            return np.frombuffer(bytes(raw), dt)[0].item()
        E = core.eng()
        if dt.kind in 'iu':
            return Sym(E.fresh('bytes', 'Int'), True)
        return Sym(E.fresh('bytes'), False)


class VFile:
    """An open virtual binary file."""
    closed = False

    def __init__(self, path, mode):
        self.path, self.mode, self.name = path, mode, path
        key = _key(path)
        if 'w' in mode:
            STORE[key] = _Node()
            builtins.open(path, 'wb').close()
        elif 'a' in mode and key not in STORE:
            raise Unsupported('appending to a file')
        self.node = STORE[key]
        self.pos = self.node.size if 'a' in mode else 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        if not self.closed and ('w' in self.mode or 'a' in self.mode):
            with builtins.open(self.path, 'wb') as f:
                f.truncate(self.node.size)
        self.closed = True

    def flush(self):
        pass

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        off = int(off)
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else self.node.size + off
        return self.pos

    def write_values(self, vals, dt):
        for v in vals:
            self.node.put(self.pos, dt, v)
            self.pos += dt.itemsize

    def write(self, data):
        if isinstance(data, VBytes):
            for o, (d, v) in sorted(data.node.slots.items()):
                self.node.put(self.pos + o, d, v)
            self.pos += data.node.size
            return data.node.size
        if isinstance(data, (bytes, bytearray, memoryview)):
            self.write_values([int(b) for b in bytes(data)], np.dtype('u1'))
            return len(data)
        raise TypeError('a bytes-like object is required')

    def read_values(self, dt, count):
        avail = max(0, (self.node.size - self.pos) // dt.itemsize)
        n = avail if count < 0 else min(count, avail)
        out = []
        for _ in range(n):
            out.append(self.node.get(self.pos, dt))
            self.pos += dt.itemsize
        return out

    def read(self, n=-1):
        n = self.node.size - self.pos if n is None or n < 0 else min(int(n), self.node.size - self.pos)
        nd = _Node()
        for o, (d, v) in self.node.slots.items():
            if o >= self.pos and o + d.itemsize <= self.pos + n:
                nd.put(o - self.pos, d, v)
        nd.size = n
        self.pos += n
        if not any(is_sym(v) for d, v in nd.slots.values()):
            raw = bytearray(n)
            for o, (d, v) in nd.slots.items():
                raw[o:o + d.itemsize] = np.array(v, d).tobytes()
            return bytes(raw)
        return VBytes(nd)

    def readlines(self):
        raise Unsupported('text lines of a binary file')

    __iter__ = readlines


class VBytes:
    def __init__(self, node):
        self.node = node

    def __len__(self):
        return self.node.size

    def __getitem__(self, i):
        if not isinstance(i, slice) or i.step not in (None, 1):
            raise Unsupported('indexing bytes')
        a, b, _ = i.indices(self.node.size)
        nd = _Node()
        for o, (d, v) in self.node.slots.items():
            if o >= a and o + d.itemsize <= b:
                nd.put(o - a, d, v)
        nd.size = max(0, b - a)
        return VBytes(nd)


def _key(path):
    return os.path.realpath(os.fspath(path))


def open_(path, mode='r', *a, **k):
    if isinstance(path, (str, os.PathLike)):
        if 'b' in mode and ('w' in mode or 'a' in mode):
            return VFile(path, mode)
        if 'w' in mode:
            STORE.pop(_key(path), None)
        elif _key(path) in STORE:
            return VFile(path, mode)
    return builtins.open(path, mode, *a, **k)


def file_dtype(a):
    d = getattr(a, '_dt', None)
    return d if d is not None else KDT[a._k]


def tofile(a, fid, sep='', format='%s'):
    if sep not in ('', None):
        raise Unsupported('tofile(sep=)')
    a = as_sym(a)
    own = not isinstance(fid, VFile)
    if own and not isinstance(fid, (str, os.PathLike)):
        la = lower(a)
        if la is None:
            raise Unsupported('writing symbolic data to %r' % type(fid))
        la.astype(file_dtype(a)).tofile(fid)
        return
    f = VFile(fid, 'wb') if own else fid
    f.write_values([cast_scalar(v, a._k) if not is_sym(v) else v for v in base(a).reshape(-1)], file_dtype(a))
    if own:
        f.close()


def tobytes(a, order='C'):
    la = lower(a)
    if la is not None:
        return la.astype(file_dtype(a)).tobytes(order)
    nd = _Node()
    dt = file_dtype(a)
    for i, v in enumerate(base(a).reshape(-1) if order != 'F' else base(a).flatten('F')):
        nd.put(i * dt.itemsize, dt, v)
    return VBytes(nd)


def _typed(vals, dt):
    k = kind_of_dtype(dt)
    r = obj_array(vals, k, (len(vals),)) if vals else zeros((0,), k)
    if dt != KDT[k]:
        r._dt = dt
    return r


def np_fromfile(file, dtype=float, count=-1, sep='', offset=0):
    dt = np.dtype(lower_deep(getattr(dtype, '__symex_real__', dtype)))
    if isinstance(count, SymArray):
        count = count.item()
    if is_sym(count):
        count = count.__index__()
    count = int(count)
    own = isinstance(file, (str, os.PathLike))
    if own and _key(file) in STORE:
        file = VFile(file, 'rb')
    if not isinstance(file, VFile):
        r = wrap_out(np.fromfile(file, dtype=dt, count=count, sep=sep, offset=offset))
        if isinstance(r, SymArray) and dt != KDT[r._k]:
            r._dt = dt
        return r
    file.pos += int(offset)
    return _typed(file.read_values(dt, count), dt)


def np_frombuffer(buf, dtype=float, count=-1, offset=0):
    dt = np.dtype(lower_deep(getattr(dtype, '__symex_real__', dtype)))
    if isinstance(buf, VBytes):
        n = (len(buf) - int(offset)) // dt.itemsize if count < 0 else int(count)
        if count < 0 and (len(buf) - int(offset)) % dt.itemsize:
            raise ValueError('buffer size must be a multiple of element size')
        return _typed([buf.node.get(int(offset) + i * dt.itemsize, dt) for i in range(n)], dt)
    return _typed_real(np.frombuffer(buf, dt, int(count), int(offset)), dt)


def _typed_real(a, dt):
    r = wrap_out(a)
    if isinstance(r, SymArray) and dt != KDT[r._k]:
        r._dt = dt
    return r


def _snap(x):
    """The saved object: an independent copy."""
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, dict):
        return {k: _snap(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)) and not hasattr(x, '_fields'):
        return type(x)(_snap(v) for v in x)
    return x


def _save_obj(path, obj):
    nd = STORE[_key(path)] = _Node()
    nd.obj = (_snap(obj),)
    builtins.open(path, 'wb').close()


def np_save(file, arr, *a, **k):
    if isinstance(file, VFile):
        file.node.obj = (_snap(as_sym(arr)),)
        return
    path = os.fspath(file)
    if not path.endswith('.npy'):
        path += '.npy'
    _save_obj(path, as_sym(arr))


def np_savez(file, *a, **k):
    if isinstance(file, VFile):
        raise Unsupported('savez to an open file')
    path = os.fspath(file)
    if not path.endswith('.npz'):
        path += '.npz'
    d = {'arr_%d' % i: as_sym(v) for i, v in enumerate(a)}
    d.update({n: as_sym(v) for n, v in k.items()})
    _save_obj(path, d)


def np_load(file, *a, **k):
    if isinstance(file, VFile):
        return _snap(file.node.obj[0])
    if _key(file) in STORE:
        o = STORE[_key(file)].obj
        if o is None:
            raise ValueError('not a saved array')
        return _snap(o[0])
    r = np.load(file, *a, **lower_deep(k))
    return wrap_out(r) if isinstance(r, np.ndarray) else r


def pickle_dump(obj, f, *a, **k):
    if isinstance(f, VFile):
        f.node.obj = (_snap(obj),)
        f.node.size = max(f.node.size, 1)
        return
    import pickle
    return pickle.dump(lower_deep(obj), f, *a, **k)


def pickle_load(f, *a, **k):
    if isinstance(f, VFile):
        if f.node.obj is None:
            if f.node.size == 0:
                raise EOFError('Ran out of input')
            import pickle
            raise pickle.UnpicklingError('invalid load key')
        return _snap(f.node.obj[0])
    import pickle
    return _wrap_deep(pickle.load(f, *a, **k))


# Libraries that write and read texts (json, yaml, pandas) run as installed: a
# symbol travels as a number of its own, which is mapped back after reading.

SENT = {}       # number -> symbol


def _out(x):
    if isinstance(x, SymArray):
        if lower(x) is not None:
            return lower(x)
        return np.array([_out(v) for v in base(x).reshape(-1)], file_dtype(x)).reshape(x.shape)
    if isinstance(x, SymBool) or isinstance(x, SymC):
        raise Unsupported('a symbolic truth value or complex number in a text format')
    if is_sym(x):
        v = (9 * 10 ** 13 + len(SENT)) if x.isint else 83712.00123456789 + len(SENT) * 0.5
        SENT[v] = x
        return v
    if type(x) in (list, tuple):
        return type(x)(_out(v) for v in x)
    if type(x) is dict:
        return {_out(k): _out(v) for k, v in x.items()}
    return lower_deep(x)


def _in(x):
    if not SENT:
        return _wrap_deep(x)
    if isinstance(x, (float, int, np.floating, np.integer)) and not isinstance(x, bool):
        for v, s in SENT.items():
            if abs(x - v) <= (0 if isinstance(v, int) else 1e-12 * v):
                return elem.multiply(s, 1.0) if isinstance(x, (float, np.floating)) and s.isint else s
        return x
    if type(x) in (list, tuple):
        return type(x)(_in(v) for v in x)
    if isinstance(x, dict):
        return {_in(k): _in(v) for k, v in x.items()}
    return wrap_out(x)


def text_module(mod):
    import importlib

    def dump(n):
        def f(obj, *a, **k):
            return getattr(importlib.import_module(mod), n)(_out(obj), *a, **k)
        return f

    def load(n):
        def f(*a, **k):
            return _in(getattr(importlib.import_module(mod), n)(*a, **k))
        return f
    return {n: dump(n) for n in ('dump', 'dumps', 'safe_dump') if hasattr(importlib.import_module(mod), n)} | {n: load(n) for n in ('load', 'loads', 'safe_load') if hasattr(importlib.import_module(mod), n)}


def pandas_module():
    def frame(data=None, *a, **k):
        import pandas
        return pandas.DataFrame(_out(data), *a, **lower_deep(k))

    def read(n):
        def f(*a, **k):
            import pandas
            df = getattr(pandas, n)(*lower_deep(a), **lower_deep(k))
            if not SENT:
                return df
            for c in df.columns:
                v = [_in(e) for e in df[c].tolist()]
                if any(is_sym(e) for e in v):
                    df[c] = pandas.Series(v, dtype=object, index=df.index)
            return df
        return f
    return {'DataFrame': frame, 'read_csv': read('read_csv'), 'read_excel': read('read_excel')}


def _wrap_deep(x):
    if isinstance(x, dict):
        return {k: _wrap_deep(v) for k, v in x.items()}
    return wrap_out(x)


# ------------------------------------------------------------------ text
class _Rounded:
    """A number printed with limited precision: any value within half a unit
    of the last digit."""

    def __init__(self, v, t, digits):
        self.v, self.t, self.digits, self.w = v, t, digits, None

    def value(self):
        if self.w is None:
            E = core.eng()
            self.w = w = Sym(E.fresh('text'), False)
            if self.t in ('f', 'F'):
                lim = 0.5 * 10.0 ** -self.digits
            else:
                lim = elem.multiply(0.5 * 10.0 ** (-self.digits if self.t and self.t in 'eE' else 1 - self.digits), elem.absolute(self.v))
            d = elem.subtract(w, self.v)
            E.add(core.as_z3bool(elem.and_(elem.less_equal(d, lim), elem.less_equal(elem.negative(d), lim))))
        return self.w


def token(v, spec=''):
    """Text for a symbolic number formatted with `spec`."""
    if isinstance(v, SymBool):
        v = elem.ite(v, 1, 0)
    if isinstance(v, SymC):
        raise Unsupported('formatting a complex symbol')
    m = re.fullmatch(r'[ <>^+\-0]*\d*(?:\.(\d+))?([a-zA-Z%]?)', spec or '')
    if not m:
        raise Unsupported('format spec %r' % spec)
    p, t = m.group(1), m.group(2)
    if v.isint and t in ('', 'd', 'n'):
        s = '9%017d' % len(TOKENS)
        TOKENS[s] = v
        return s
    if t == 'd':
        raise ValueError("Unknown format code 'd' for object of type 'float'")
    digits = int(p) if p is not None else (None if t == '' else 6)
    if digits is not None and not (t in ('e', 'g', 'E', 'G', '') and digits >= 14 or t == 'f' and digits >= 30):
        v = _Rounded(v, t, digits)
    s = '83712.9%011d7' % len(TOKENS)
    TOKENS[s] = v
    return s


def parse(x, real):
    """float()/int() of a text; None when the text holds no symbol."""
    if not TOKENS:
        return None
    s = x.decode('ascii', 'replace') if isinstance(x, bytes) else str(x)
    s = s.strip()
    neg = s.startswith('-')
    s = s.lstrip('+-')
    v = TOKENS.get(s)
    if v is None:
        return None
    if isinstance(v, _Rounded):
        v = v.value()
    if real is int and not v.isint:
        raise ValueError("invalid literal for int() with base 10: %r" % s)
    if neg:
        v = elem.negative(v)
    return elem.multiply(v, 1.0) if real is float and v.isint else v


class TokArray(np.ndarray):
    """Array of texts."""

    def astype(self, dtype, *a, **k):
        kd = kind_of_dtype(dtype)
        if kd not in KDT or not TOKENS:
            r = np.ndarray.astype(self, lower_deep(getattr(dtype, '__symex_real__', dtype))).view(np.ndarray)
            return wrap_out(r)
        return cast_text(self, kd)


def cast_text(a, kd):
    real = {'f': float, 'i': int, 'c': complex, 'b': bool}[kd]
    out = []
    for s in np.asarray(a).reshape(-1):
        v = parse(s, real)
        out.append(real(s) if v is None else v)
    return obj_array(out, kd, np.shape(a))


def np_loadtxt(fname, dtype=float, comments='#', delimiter=None, skiprows=0, usecols=None, unpack=False, ndmin=0, **k):
    if not TOKENS or k:
        return wrap_out(np.loadtxt(fname, dtype=lower_deep(getattr(dtype, '__symex_real__', dtype)), comments=comments, delimiter=delimiter, skiprows=skiprows, usecols=usecols, unpack=unpack, ndmin=ndmin, **k))
    raw = np.loadtxt(fname, dtype=str, comments=comments, delimiter=delimiter, skiprows=skiprows, usecols=usecols, unpack=unpack, ndmin=ndmin)
    return cast_text(raw, kind_of_dtype(dtype))


def numpy_over():
    return {'fromfile': np_fromfile, 'frombuffer': np_frombuffer, 'save': np_save, 'savez': np_savez, 'savez_compressed': np_savez, 'load': np_load, 'loadtxt': np_loadtxt}
