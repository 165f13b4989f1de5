"""Property harnesses: the same case function runs symbolically (inputs are
solver variables) and concretely (inputs from a solver model, real code)."""
import contextlib
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import core, elem, fsmodel, loader, proxy
from .core import Engine, Sym, SymBool, SymC, Unsupported, Infeasible, Found, Budget, as_z3bool, is_sym, z3
from .sarray import (SymArray, as_sym, base, has_sym, has_sym_strict, lower, obj_array, wrap, wrap_out, wrap_real, zeros, lower_deep, cast_scalar)

_RS = np.random.RandomState    # real generator (numpy.random is replaced during a run)
CASES = []


class Case:
    def __init__(self, fn, quick, thorough, kw):
        self.fn, self.quick, self.thorough, self.kw = fn, quick, thorough, kw
        self.name = fn.__name__


def case(quick=({},), thorough=(), **kw):
    """Register a case; quick/thorough are lists of parameter dicts (thorough
    runs both)."""
    def deco(fn):
        CASES.append(Case(fn, list(quick), list(thorough), kw))
        return fn
    return deco


class Violation(Exception):
    pass


class Reject(Exception):
    """Concrete inputs violate an assumption."""


def _q(x):
    f = Fraction(x)
    return z3.Q(f.numerator, f.denominator)


_LIST = {}


def _order_listings(ctx):
    """Directory listings of scratch directories are in the order in which the harness made up the names (else: by name),
    in the symbolic run as in the replay; the operating system guarantees no order."""
    import os
    _LIST['ctx'] = ctx
    if 'listdir' in _LIST:
        return
    _LIST['listdir'], _LIST['scandir'] = os.listdir, os.scandir

    def scratch(path):
        return isinstance(path, str) and 'symex_' in path

    def key(name):
        ts = _LIST['ctx'].texts
        return (min([i for i, t in enumerate(ts) if t in name] or [len(ts)]), name)

    def listdir(path='.'):
        r = _LIST['listdir'](path)
        return sorted(r, key=key) if scratch(path) else r

    class scandir:
        def __init__(self, path='.'):
            self.it = _LIST['scandir'](path)
            if scratch(path):
                with self.it as it:
                    self.it = iter(sorted(it, key=lambda e: key(e.name)))

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def close(self):
            if hasattr(self.it, 'close'):
                self.it.close()
    os.listdir, os.scandir = listdir, scandir


class Ctx:
    def __init__(self, mode, t2c, vals=None, engine=None, seed=1):
        self.mode = mode
        self.sym = mode == 'sym'
        self.t2c = t2c
        self.vals = vals or {}
        self.E = engine
        self.nrand = self.ndraw = 0
        self.draws = []
        self.reached = []
        self.observed = []
        self.np = proxy.proxy_for(np) if self.sym else np
        self.tmpdirs = []
        self.texts = []
        self.seed = seed
        self.checked = 0
        self.randpos = None

    # ---- inputs
    def _declare(self, name, kind, lo, hi):
        E = self.E
        v = {'real': z3.Real, 'int': z3.Int, 'bool': z3.Bool}[kind](name)
        E.inputs[name] = (v, kind)
        if kind != 'bool':
            E.bounds[name] = (lo, hi)
            if lo is not None:
                E.add(v >= (_q(lo) if kind == 'real' else int(lo)))
            if hi is not None:
                E.add(v <= (_q(hi) if kind == 'real' else int(hi)))
        return v

    def real(self, name, lo, hi):
        if self.sym:
            return Sym(self._declare(name, 'real', lo, hi), False)
        return float(self.vals.get(name, lo if lo is not None else 0))

    def int(self, name, lo, hi):
        if self.sym:
            return Sym(self._declare(name, 'int', lo, hi), True)
        return int(self.vals.get(name, lo))

    def bool(self, name):
        if self.sym:
            return SymBool(self._declare(name, 'bool', None, None))
        return bool(self.vals.get(name, False))

    def array(self, name, shape, lo=-1.0, hi=1.0, free=None, rest=None, kind='real', cast=None):
        """Array of inputs; with `free`, only those flat positions are symbolic
        and the others take the concrete values of `rest`."""
        if isinstance(shape, (int, np.integer)):
            shape = (int(shape),)
        n = int(np.prod(shape)) if shape else 1
        mk = {'real': self.real, 'int': self.int}.get(kind)
        out = []
        restv = None
        if rest is not None:
            restv = np.broadcast_to(np.asarray(rest, dtype=float), shape).reshape(-1)
        elif free is not None:
            r = _RS(7)
            restv = np.round(lo + (hi - lo) * r.rand(n), 3)
            if kind == 'int':
                restv = r.randint(lo, hi + 1, n)
        for i in range(n):
            if free is not None and i not in free:
                v = restv[i].item()
                out.append({'real': float, 'int': int, 'bool': bool}[kind](v))
            elif kind == 'bool':
                out.append(self.bool('%s[%d]' % (name, i)))
            else:
                out.append(mk('%s[%d]' % (name, i), lo, hi))
        k = {'real': 'f', 'int': 'i', 'bool': 'b'}[kind]
        if self.sym:
            return obj_array(out, k, tuple(shape))
        a = np.array(out, dtype={'f': np.float64, 'i': np.int64, 'b': bool}[k]).reshape(shape)
        return a if cast is None else a.astype(cast)

    def const(self, a):
        """A concrete array as the code would see it."""
        a = np.asarray(a)
        return wrap_real(a.copy()) if self.sym else a.copy()

    def det(self, seed, *shape):
        """Deterministic concrete numbers in [0, 1) for a case's parameters."""
        return np.round(_RS(seed).rand(*shape), 3)

    def pick(self, name, options):
        """Solver-chosen element of a finite list (forks)."""
        i = self.int(name, 0, len(options) - 1)
        if self.sym:
            i = i.__index__()
        return options[i]

    def assume(self, c):
        if self.sym:
            if isinstance(c, (SymArray, np.ndarray)):
                c = c.all()
            self.E.assume(as_z3bool(c))
        elif not bool(np.all(c)):
            raise Reject()

    # ---- environment stand-ins
    def random(self, fixed=False, impulse=None):
        """Rewind the stream of symbolic random draws to its start (with `fixed`,
        the draws are some fixed numbers; with `impulse` they are zero but for the
        one with that number)."""
        self.nrand = self.ndraw = 0
        self.draws = []
        self.impulse = impulse
        self.fixed_draws = fixed is True

    def drawn(self):
        """All draws since the last rewind, in order."""
        return [x for v in self.draws for x in (base(v).reshape(-1) if isinstance(v, np.ndarray) else [v])]

    # ---- checks
    def check(self, c, label, detail=None):
        self.checked += 1
        if self.sym:
            if isinstance(c, (SymArray,)):
                c = c.all() if c.size else True
            elif isinstance(c, np.ndarray):
                c = bool(np.all(c))
            self.E.check(c if is_sym(c) else bool(c), label)
        else:
            if not bool(np.all(c)):
                raise Violation(label + ('' if detail is None else ' ' + str(detail)))

    def _flat(self, a):
        if self.sym:
            a = as_sym(a)
            return list(base(a).reshape(-1)), a.shape
        a = np.asarray(a)
        return a.reshape(-1), a.shape

    def close(self, a, b, label, tol=1e-6, rtol=0.0, nan_ok=False):
        """|a-b| <= tol + rtol*|b| elementwise; one solver query for all."""
        self.checked += 1
        fa, sa = self._flat(a)
        fb, sb = self._flat(b)
        if sa != sb:
            try:
                sh = np.broadcast_shapes(sa, sb)
            except ValueError:
                sh = None
            if sh is None or (sa != () and sb != () and sa != sb):
                return self.check(False, label + ': shapes %s and %s differ' % (sa, sb))
            fa = list(np.broadcast_to(np.array(fa + [None], object)[:-1].reshape(sa), sh).reshape(-1)) if self.sym else np.broadcast_to(np.asarray(fa).reshape(sa), sh).reshape(-1)
            fb = list(np.broadcast_to(np.array(fb + [None], object)[:-1].reshape(sb), sh).reshape(-1)) if self.sym else np.broadcast_to(np.asarray(fb).reshape(sb), sh).reshape(-1)
        self.observe(label, fa)
        if not self.sym:
            for i, (x, y) in enumerate(zip(fa, fb)):
                if x == y or (nan_ok and x != x and y != y):
                    continue
                if not abs(x - y) <= tol + rtol * abs(y):
                    raise Violation('%s: element %d: %r vs %r' % (label, i, x, y))
            return
        conds, s1, s2, cabs, nabs, same = [], [], [], [], 0, []
        for x, y in zip(fa, fb):
            x, y = elem.norm(x), elem.norm(y)
            if isinstance(x, Sym) and isinstance(y, Sym) and x.e.eq(y.e):
                same.append(SymBool(x.e == y.e))
            if not is_sym(x) and not is_sym(y):
                if x == y or (nan_ok and x != x and y != y) or abs(x - y) <= tol + rtol * abs(y):
                    continue
                return self.E.check(False, label)
            parts = [(elem.cre(x), elem.cre(y)), (elem.cim(x), elem.cim(y))] if elem.iscplx(x) or elem.iscplx(y) else [(x, y)]
            for u, v in parts:
                d = elem.subtract(u, v)
                if not is_sym(d):
                    if abs(d) <= tol:
                        continue
                    if d != d or rtol == 0 or not math.isfinite(d):
                        return self.E.check(False, label)
                if isinstance(d, Sym):
                    # cheap normal-form discharge
                    sd = z3.simplify(d.e, som=True)
                    if z3.is_rational_value(sd) or z3.is_int_value(sd):
                        f = Fraction(sd.as_fraction()) if z3.is_rational_value(sd) else Fraction(sd.as_long())
                        if abs(f) <= Fraction(tol):
                            self.E.stats.queries += 1
                            self.E.stats.trivial += 1
                            continue
                    if self.E.tiny_rational(d.e, tol):
                        self.E.stats.queries += 1
                        self.E.stats.trivial += 1
                        continue
                    d = Sym(sd, d.isint)

                def lim(t):
                    if rtol == 0:
                        return t
                    return elem.add(t, elem.multiply(rtol * t / tol, elem.absolute(v)))

                def ok(t):
                    L = lim(t)
                    return elem.and_(elem.less_equal(d, L), elem.less_equal(elem.negative(d), L))
                conds.append(ok(tol))
                ab = None
                if rtol == 0 and isinstance(d, Sym):
                    main, rho = self.E.deflate(d.e, tol)
                    if main is not None:
                        q = Fraction(tol) - rho
                        q = z3.Q(q.numerator, q.denominator)
                        ab = SymBool(z3.And(main <= q, main >= -q))
                        nabs += 1
                cabs.append(conds[-1] if ab is None else ab)
                s1.append(ok(tol * 1e4))
                s2.append(ok(tol * 100))
        if not conds:
            # every difference is literally zero after encoding
            from .sarray import all_list
            if same:
                return self.E.check(SymBool(z3.And(*[c.e for c in same])), label)
            self.E.stats.checks += 1
            self.E.stats.trivial += 1
            return
        from .sarray import all_list
        self.E.check(all_list(conds), label, stronger=[all_list(s1), all_list(s2)], abstract=all_list(cabs) if nabs else None)

    def _quotients(self, x, y):
        """x = p/d <= y = q/d shown by d > 0 and p <= q."""
        e = [getattr(v, 'e', None) for v in (x, y)]
        if any(v is None or v.decl().kind() != z3.Z3_OP_DIV for v in e):
            return False
        (p, d), (q, d2) = e[0].children(), e[1].children()
        if not d.eq(d2):
            return False
        self.E.stats.queries += 2
        return self.E._check(z3.simplify(d <= 0)) == z3.unsat and self.E._check(z3.simplify(p > q)) == z3.unsat

    def le(self, a, b, label, tol=1e-9):
        """a <= b (+tol) elementwise."""
        self.checked += 1
        fa, sa = self._flat(a)
        fb, sb = self._flat(b)
        n = max(len(fa), len(fb))
        fa = list(fa) * n if len(fa) == 1 and n > 1 else list(fa)
        fb = list(fb) * n if len(fb) == 1 and n > 1 else list(fb)
        if len(fa) != len(fb):
            return self.check(False, label + ': shapes differ')
        self.observe(label, fa)
        if not self.sym:
            for i, (x, y) in enumerate(zip(fa, fb)):
                if not x <= y + tol:
                    raise Violation('%s: element %d: %r > %r' % (label, i, x, y))
            return
        from .sarray import all_list
        conds, s1 = [], []
        for x, y in zip(fa, fb):
            d = elem.subtract(elem.add(y, tol), x) if not (elem.iscplx(x) or elem.iscplx(y)) else None
            if isinstance(d, Sym) and d.e.sort() == z3.RealSort():
                lb = self.E.lower_bound(d.e)
                if lb is not None and lb >= 0:
                    self.E.stats.queries += 1
                    self.E.stats.trivial += 1
                    continue
            if self._quotients(x, y):
                continue
            conds.append(elem.less_equal(x, elem.add(y, tol)))
            s1.append(elem.less_equal(x, elem.add(y, tol * 1e4)))
        if not conds:
            self.E.stats.checks += 1
            return
        self.E.check(all_list(conds), label, stronger=[all_list(s1)])

    def ge(self, a, b, label, tol=1e-9):
        self.le(b, a, label, tol)

    def equal_int(self, a, b, label):
        """Exact equality of integer/boolean data."""
        self.close(a, b, label, tol=1e-9)

    def reach(self, label):
        self.reached.append(label)

    def observe(self, label, vals):
        if len(self.observed) < 400 and not getattr(self, 'muted', False):
            self.observed.append((label, list(vals)))

    def concrete(self, x):
        """Concrete numpy value of a result that must not depend on the inputs."""
        if self.sym:
            r = lower_deep(x)
            return r
        return x

    def known(self, x):
        return True

    def symbolic(self, x):
        return self.sym and has_sym_strict(x)

    def raises(self, fn, exc=Exception):
        try:
            fn()
        except exc:
            return True
        return False

    def tmp(self):
        import tempfile
        d = tempfile.mkdtemp(prefix='symex_')
        self.tmpdirs.append(d)
        _order_listings(self)
        return d

    def write_binary(self, path, parts):
        """A binary file of consecutive arrays [(dtype, values), ...]."""
        if self.sym:
            f = fsmodel.VFile(path, 'wb')
            for dt, a in parts:
                a = as_sym(a)
                f.write_values(list(base(a).reshape(-1)), np.dtype(dt))
            f.close()
        else:
            with open(path, 'wb') as f:
                for dt, a in parts:
                    np.asarray(a).astype(dt).tofile(f)

    def read_binary(self, path, parts):
        """Values of consecutive arrays [(dtype, count), ...] of a file; also checks the file ends there."""
        node = fsmodel.STORE[fsmodel._key(path)] if self.sym else None
        out = []
        with (fsmodel.VFile(path, 'rb') if self.sym else open(path, 'rb')) as f:
            for dt, n in parts:
                if self.sym:
                    out.append(fsmodel._typed(f.read_values(np.dtype(dt), n), np.dtype(dt)))
                else:
                    out.append(np.fromfile(f, dtype=dt, count=n))
            end = f.tell()
        self.check(end == (node.size if self.sym else os.path.getsize(path)), 'file length')
        return out

    def text(self, v, spec=''):
        """A number as text (round trips exactly)."""
        if is_sym(v):
            t = fsmodel.token(v, spec)
        else:
            t = repr(float(v)) if isinstance(v, (float, np.floating)) else str(v)
        self.texts.append(t)
        return t

    def write_text(self, path, s):
        with open(path, 'w') as f:
            f.write(s)

    def quad(self, f, a, b):
        import scipy.integrate
        q = proxy.proxy_for(scipy.integrate).quad if self.sym else scipy.integrate.quad
        return q(f, a, b)[0]

    def mod(self, name):
        """Submodule of the package under test."""
        return sys.modules[self.t2c.__name__ + '.' + name]

    def cleanup(self):
        import shutil
        for d in self.tmpdirs:
            shutil.rmtree(d, ignore_errors=True)
        self.tmpdirs = []
        self.texts = []


class RandomHook:
    """numpy.random with every draw an input of the case."""

    def __init__(self, ctx, gauss=4.0):
        self.ctx, self.g = ctx, gauss

    def _draw(self, size, lo, hi, kind='real', scalar=None):
        c = self.ctx
        shape = () if size is None else ((int(size),) if isinstance(size, (int, np.integer, Sym)) else tuple(int(s) for s in size))
        name = 'rnd%d' % c.nrand
        c.nrand += 1
        if getattr(c, 'impulse', None) is not None and kind == 'real':
            v = np.zeros(int(np.prod(shape)))
            if 0 <= c.impulse - c.ndraw < v.size:
                v[c.impulse - c.ndraw] = 1.0
            c.ndraw += v.size
            return float(v[0]) if size is None else (as_sym(v.reshape(shape)) if c.sym else v.reshape(shape))
        if getattr(c, 'fixed_draws', False) and kind == 'real':
            v = np.round(lo + (hi - lo) * _RS(c.nrand).rand(*shape), 3)
            return float(v) if size is None else (as_sym(v) if c.sym else v)
        if size is None:
            v = c.real(name, lo, hi) if kind == 'real' else c.int(name, lo, hi)
            c.draws.append(v)
            return v
        v = c.array(name, shape, lo, hi, kind=kind)
        c.draws.append(v)
        return v

    def seed(self, *a, **k):
        pass

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (isinstance(loc, np.ndarray) or isinstance(scale, np.ndarray)):
            size = np.broadcast_shapes(np.shape(loc), np.shape(scale))
        return loc + scale * self._draw(size, -self.g, self.g)

    def standard_normal(self, size=None, *a, **k):
        return self._draw(size, -self.g, self.g)

    def randn(self, *s):
        return self._draw(s if s else None, -self.g, self.g)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._draw(size, 0.0, 1.0)

    def rand(self, *s):
        return self._draw(s if s else None, 0.0, 1.0)

    def random(self, size=None):
        return self._draw(size, 0.0, 1.0)
    random_sample = ranf = sample = random

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        dom = getattr(self.ctx, 'randint_domain', {}).get((int(low), int(high)))
        if dom is not None:         # the case restricts this draw to listed values (one path per value)
            n = 1 if size is None else int(np.prod(size))
            out = []
            for _ in range(n):
                name = 'rnd%d' % self.ctx.nrand
                self.ctx.nrand += 1
                out.append(self.ctx.pick(name, dom))
            out = out[0] if size is None else np.array(out).reshape(size)
            return self.ctx.const(out) if size is not None else out
        return self._draw(size, int(low), int(high) - 1, 'int')

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        return self._draw(size, int(low), int(high) - (0 if endpoint else 1), 'int')

    def shuffle(self, x, *a):
        n = len(x)
        perm = self._perm(n)
        y = [x[i].copy() if isinstance(x[i], np.ndarray) else x[i] for i in perm]
        for i in range(n):
            x[i] = y[i]

    def permutation(self, x):
        if isinstance(x, (int, np.integer, Sym)):
            r = np.array(self._perm(int(x)))
            return wrap_real(r) if self.ctx.sym else r
        perm = self._perm(len(x))
        return x[wrap_real(np.array(perm)) if self.ctx.sym else np.array(perm)]

    def _perm(self, n):
        left = list(range(n))
        out = []
        while left:
            if len(left) == 1:
                out.append(left.pop())
                break
            v = self._draw(None, 0, len(left) - 1, 'int')
            out.append(left.pop(v.__index__() if is_sym(v) else int(v)))
        return out

    def choice(self, a, size=None, replace=True, p=None):
        if p is not None:
            raise Unsupported('random.choice(p=)')
        n = int(a) if isinstance(a, (int, np.integer)) else len(a)
        if not replace:
            m = int(size)
            idx = self._perm(n)[:m]
        else:
            v = self._draw(size, 0, n - 1, 'int')
            if size is None:
                i = v.__index__() if is_sym(v) else int(v)
                return i if isinstance(a, (int, np.integer)) else a[i]
            idx = [x.__index__() if is_sym(x) else int(x) for x in v]
        idx = np.array(idx)
        r = wrap_real(idx) if self.ctx.sym else idx
        return r if isinstance(a, (int, np.integer)) else (as_sym(a)[r] if self.ctx.sym else np.asarray(a)[idx])

    def default_rng(self, *a, **k):
        return self
    RandomState = Generator = default_rng

    def get_state(self):
        return None

    def set_state(self, *a):
        pass


@contextlib.contextmanager
def patched_random(hook):
    names = ['seed', 'normal', 'standard_normal', 'randn', 'uniform', 'rand', 'random', 'random_sample', 'ranf', 'sample', 'randint', 'shuffle', 'permutation',
             'choice', 'default_rng', 'RandomState']
    old = {n: getattr(np.random, n) for n in names}
    try:
        for n in names:
            setattr(np.random, n, getattr(hook, n))
        yield
    finally:
        for n, v in old.items():
            setattr(np.random, n, v)


@contextlib.contextmanager
def quiet():
    so, se = sys.stdout, sys.stderr
    dn = open(os.devnull, 'w')
    try:
        sys.stdout = sys.stderr = dn
        yield
    finally:
        sys.stdout, sys.stderr = so, se
        dn.close()


def start_coverage(seen):
    mon = sys.monitoring
    TID = 4
    try:
        mon.use_tool_id(TID, 'symex')
    except ValueError:
        pass

    def cb(code, off):
        if code.co_filename.startswith(loader.SRC):
            seen.add('%s:%s' % (os.path.basename(code.co_filename), code.co_qualname))
        return mon.DISABLE
    mon.register_callback(TID, mon.events.PY_START, cb)
    mon.set_events(TID, mon.events.PY_START)


def run_concrete(fn, params, real, vals, seed=1):
    """Run a case on the real code. -> (status, message, ctx)"""
    ctx = Ctx('conc', real, vals=vals, seed=seed)
    snap = loader.snapshot(loader.REAL)
    try:
        with quiet(), patched_random(RandomHook(ctx)), np.errstate(all='ignore'):
            fn(ctx, **params)
        return 'ok', '', ctx
    except Reject:
        return 'rejected', 'assumption not met', ctx
    except Violation as ex:
        return 'violation', str(ex), ctx
    except AssertionError as ex:
        return 'violation', 'AssertionError %s' % ex, ctx
    except Exception as ex:
        tb = traceback.extract_tb(sys.exc_info()[2])
        inpkg = any(f.filename.startswith(loader.SRC) for f in tb)
        where = ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb if f.filename.startswith(loader.SRC)]
        return ('violation' if inpkg else 'harness-error'), 'raises %s: %s at %s' % (type(ex).__name__, ex, where[-1:] or
                ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb][-2:]), ctx
    finally:
        loader.restore(snap)
        ctx.cleanup()


def run_symbolic(fn, params, sympkg, seed=1, deadline=None, timeout_ms=4000, max_paths=4000, ignore=(), raise_label='no exception'):
    E = Engine(seed=seed, timeout_ms=timeout_ms, max_paths=max_paths, deadline=deadline)
    E.ignore = set(ignore)
    snap = loader.snapshot(loader.SYM)
    state = {'ctx': None, 'exc': None, 'reached': set(), 'inputs': {}, 'bounds': {}, 'uf': set(), 'pc': [], 'observed': None}

    def one():
        loader.restore(snap)
        fsmodel.reset()
        ctx = Ctx('sym', sympkg, engine=E, seed=seed)
        state['ctx'] = ctx
        proxy.RANDOM_HOOK[0] = RandomHook(ctx)
        try:
            with quiet(), np.errstate(all='ignore'):
                fn(ctx, **params)
        except (Unsupported, Infeasible, Found, Budget):
            raise
        except Exception as ex:
            if isinstance(ex, Reject):
                return
            tb = traceback.extract_tb(sys.exc_info()[2])
            msg = 'raises %s: %s at %s' % (type(ex).__name__, ex, ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb][-3:])
            state['exc'] = msg
            label = 'raises %s' % type(ex).__name__
            if label in E.ignore:
                return
            r = E._check()
            if r == z3.unsat:
                raise Infeasible()
            m = E.solver.model() if r == z3.sat else E._guided_sat(z3.BoolVal(True))
            if m is None:
                raise Unsupported('exception on a path with no model: ' + msg)
            E._found(label, m)
        finally:
            ctx.cleanup()
        if not ctx.checked:
            raise Unsupported('harness made no check')
        state['reached'].update(ctx.reached)
        state['inputs'].update(E.inputs)
        state['bounds'].update(E.bounds)
        state['uf'].update(E.path_notes)
        state['pc'] = list(E.pc)
        state['observed'] = ctx.observed
    res = {'verdict': None, 'detail': ''}
    try:
        res['verdict'] = E.explore(one)
        if res['verdict'] == 'unknown':
            res['detail'] = 'solver gave no verdict on: ' + ', '.join(sorted(set(E.unknowns)))
    except Unsupported as ex:
        res['verdict'] = 'unsupported'
        tb = traceback.extract_tb(sys.exc_info()[2])
        res['detail'] = '%s at %s' % (ex, ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb if f.filename.startswith(loader.SRC)][-2:])
        if os.environ.get('SYMEX_TB'):
            traceback.print_exc()
    except Budget as ex:
        res['verdict'] = 'budget'
        res['detail'] = str(ex)
    finally:
        loader.restore(snap)
    res['stats'] = E.stats.as_dict()
    res['cex'] = E.cex
    res['exc'] = state['exc']
    res['uf'] = sorted(state['uf'])
    b = {}
    for n, (v, k) in state['inputs'].items():
        r = n.split('[')[0]
        lo, hi = state['bounds'].get(n, (None, None))
        key = (r, k, str(lo), str(hi))
        b[key] = b.get(key, 0) + 1
    res['bounds'] = ['%s: %d %s in [%s, %s]' % (r, c, k, lo, hi) for (r, k, lo, hi), c in sorted(b.items())]
    res['ninputs'] = len(state['inputs'])
    res['state'] = state
    return res


def witness(state, seed, tries=6):
    """Concrete inputs satisfying the last path's condition, randomised."""
    rng = random.Random(seed)
    names = [n for n, (v, k) in state['inputs'].items()]
    for t in range(tries):
        s = core.new_solver()
        s.set('timeout', 4000)
        s.add(*state['pc'])
        for n in names:
            v, k = state['inputs'][n]
            if k == 'bool' or rng.random() < (0.0, 0.0, 0.3, 0.6, 0.9, 1.0)[t % 6]:
                continue
            lo, hi = state['bounds'][n]
            lo = -2 if lo is None else lo
            hi = max(lo, 2) if hi is None else hi
            if k == 'int':
                s.add(v == rng.randint(int(lo), int(hi)))
            else:
                q = Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(rng.randint(1, 62), 64)
                s.add(v == z3.Q(q.numerator, q.denominator))
        if core.timed_check(s) == z3.sat:
            m = s.model()
            return {n: core.model_value(m, v, k) for n, (v, k) in state['inputs'].items()}, m
    return None, None


def compare_observed(sym_obs, conc_obs, model):
    """Evaluate the symbolic observations under the witness model and compare
    with the real code's values: checks the encoder itself."""
    n = bad = 0
    worst = None
    for (l1, a), (l2, b) in zip(sym_obs, conc_obs):
        if l1 != l2 or len(a) != len(b):
            return n, bad + 1, '%s/%s' % (l1, l2)
        for x, y in list(zip(a, b))[:40]:
            if not is_sym(x):
                v = complex(x)
            else:
                def ev(u):
                    if not is_sym(u):
                        return float(u)
                    e = model.eval(core.zterm(u), model_completion=True)
                    if z3.is_algebraic_value(e):
                        e = e.approx(20)
                    if not (z3.is_rational_value(e)):
                        return None
                    return float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
                re, im = (ev(x.re), ev(x.im)) if isinstance(x, SymC) else (ev(x), 0.0)
                if re is None or im is None:
                    continue
                v = complex(re, im)
            n += 1
            y = complex(y)
            if v == y or (v != v and y != y):
                continue
            if not abs(v - y) <= 1e-5 * max(1.0, abs(y), abs(v)):
                bad += 1
                worst = '%s: encoder %r, real code %r' % (l1, v, y)
    return n, bad, worst
