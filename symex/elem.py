"""Elementwise semantics of numpy's scalar operations over symbolic numbers.

Every function takes concrete Python/numpy numbers or Sym/SymBool/SymC and
returns one of them.  Concrete-only calls are normally handled by numpy itself
(see sarray); the code here only has to be right for mixed operands.
"""
import math
import operator
from fractions import Fraction

import numpy as np

from .core import (Sym, SymBool, SymC, Unsupported, as_z3bool, eng, is_sym, mk, z3, zreal, zterm)
from .core import _isint, _nonfinite

CPLX = (complex, np.complexfloating)


def norm(x):
    """numpy scalars / 0-d arrays -> Python numbers."""
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return norm(x.item())
    if isinstance(x, SymC) and not is_sym(x.re) and not is_sym(x.im):
        return complex(x.re, x.im)
    return x


def fold(s):
    """Turn a Sym whose term is a numeral into a Python number."""
    if isinstance(s, Sym):
        e = s.e
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_rational_value(e):
            return float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
    elif isinstance(s, SymBool):
        if z3.is_true(s.e):
            return True
        if z3.is_false(s.e):
            return False
    return s


def np1(f):
    def g(x):
        with np.errstate(all='ignore'):
            return norm(f(x))
    return g


def conc(*xs):
    return not any(is_sym(x) for x in xs)


def cre(x):
    return x.re if isinstance(x, SymC) else x.real if isinstance(x, CPLX) else x


def cim(x):
    return x.im if isinstance(x, SymC) else x.imag if isinstance(x, CPLX) else 0.0


def mkc(re, im):
    if not is_sym(re) and not is_sym(im):
        return complex(re, im)
    return SymC(re, im)


def iscplx(x):
    return isinstance(x, (SymC,) + CPLX)


def npbin(uf):
    def g(a, b):
        with np.errstate(all='ignore'):
            return norm(uf(a, b))
    return g


# --------------------------------------------------------------- arithmetic
def decide(c):
    return eng().decide(c)


def _isbool(x):
    return isinstance(x, (bool, np.bool_, SymBool))


def add(a, b):
    a, b = norm(a), norm(b)
    if conc(a, b):
        return npbin(np.add)(a, b)
    if iscplx(a) or iscplx(b):
        return mkc(add(cre(a), cre(b)), add(cim(a), cim(b)))
    if _isbool(a) and _isbool(b):
        return or_(a, b)
    if _nonfinite(a):
        return a
    if _nonfinite(b):
        return b
    if not is_sym(a) and a == 0 and not (isinstance(a, float) and _isint(b)):
        return tonum(b)
    if not is_sym(b) and b == 0 and not (isinstance(b, float) and _isint(a)):
        return tonum(a)
    real = not (_isint(a) and _isint(b))
    return mk(zterm(a, real) + zterm(b, real), not real)


def tonum(x):
    if isinstance(x, SymBool):
        return mk(zterm(x, False), True)
    return x


def negative(a):
    a = norm(a)
    if conc(a):
        return norm(np.negative(a))
    if isinstance(a, SymC):
        return mkc(negative(a.re), negative(a.im))
    real = not _isint(a)
    return mk(-zterm(a, real), not real)


def positive(a):
    return a


def subtract(a, b):
    a, b = norm(a), norm(b)
    if conc(a, b):
        return npbin(np.subtract)(a, b)
    if iscplx(a) or iscplx(b):
        return mkc(subtract(cre(a), cre(b)), subtract(cim(a), cim(b)))
    if _nonfinite(a):
        return a
    if _nonfinite(b):
        return -b
    if not is_sym(b) and b == 0 and not (isinstance(b, float) and _isint(a)):
        return tonum(a)
    real = not (_isint(a) and _isint(b))
    ta, tb = zterm(a, real), zterm(b, real)
    if ta.eq(tb):
        return 0.0 if real else 0
    return mk(ta - tb, not real)


def multiply(a, b):
    a, b = norm(a), norm(b)
    if conc(a, b):
        return npbin(np.multiply)(a, b)
    if iscplx(a) or iscplx(b):
        if not iscplx(a):
            return mkc(multiply(a, cre(b)), multiply(a, cim(b)))
        if not iscplx(b):
            return mkc(multiply(cre(a), b), multiply(cim(a), b))
        ar, ai, br, bi = cre(a), cim(a), cre(b), cim(b)
        return mkc(subtract(multiply(ar, br), multiply(ai, bi)), add(multiply(ar, bi), multiply(ai, br)))
    if _isbool(a) and _isbool(b):
        return and_(a, b)
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        if not isinstance(a, SymBool):
            a, b = b, a
        if not is_sym(b) and _nonfinite(b):
            return b if decide(a.e) else math.nan
        zero = 0 if _isint(b) else 0.0
        return ite(a, tonum(b), zero)
    for x, y in ((a, b), (b, a)):
        if not is_sym(x):
            if _nonfinite(x):
                if math.isnan(x):
                    return x
                if decide(zterm(y) > 0):
                    return x
                if decide(zterm(y) < 0):
                    return -x
                return math.nan
            if x == 0:
                return 0 if _isint(x) and _isint(y) else 0.0
            if x == 1 and (_isint(x) == _isint(y) or not _isint(y)):
                return y
    if a is b and isinstance(a, Sym) and a.sq is not None:
        return a.sq
    if isinstance(a, Sym) and isinstance(b, Sym) and a.sq is not None and a.e.eq(b.e):
        return a.sq
    real = not (_isint(a) and _isint(b))
    return mk(zterm(a, real) * zterm(b, real), not real)


def divide(a, b):
    a, b = norm(a), norm(b)
    if conc(a, b):
        return npbin(np.divide)(a, b)
    if iscplx(a) or iscplx(b):
        if not iscplx(b):
            return mkc(divide(cre(a), b), divide(cim(a), b))
        d = add(multiply(cre(b), cre(b)), multiply(cim(b), cim(b)))
        n = multiply(a, mkc(cre(b), negative(cim(b))))
        return mkc(divide(cre(n), d), divide(cim(n), d))
    a, b = tonum(a), tonum(b)
    if not is_sym(b):
        if math.isnan(b):
            return math.nan
        if math.isinf(b):
            return 0.0
        if b == 0:
            neg = math.copysign(1.0, b) < 0
            if decide(zterm(a) > 0):
                return -math.inf if neg else math.inf
            if decide(zterm(a) < 0):
                return math.inf if neg else -math.inf
            return math.nan
        if b == 1:
            return a if not _isint(a) else mk(zterm(a), False)
        if isinstance(a, Sym) and abs(b) > 1e-200:
            q = Fraction(1) / Fraction(b)
            return mk(zterm(a) * z3.Q(q.numerator, q.denominator), False)
        return mk(zterm(a) / zreal(b), False)
    tb = zterm(b)
    if decide(tb == 0):
        if not is_sym(a):
            return math.nan if a == 0 or math.isnan(a) else math.copysign(math.inf, a)
        if decide(zterm(a) > 0):
            return math.inf
        if decide(zterm(a) < 0):
            return -math.inf
        return math.nan
    if not is_sym(a):
        if math.isnan(a):
            return a
        if math.isinf(a):
            return a if decide(tb > 0) else -a
        if a == 0:
            return 0.0
    ta = zterm(a)
    if ta.eq(tb):
        return 1.0
    if has_div(tb):
        r = ratio(ta, tb)
        if r is not None:
            return mk(r, False)
    return mk(ta / tb, False)


def has_div(t, depth=6):
    if not z3.is_app(t) or depth == 0:
        return False
    if t.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(t.arg(1)):
        return True
    return any(has_div(c, depth - 1) for c in t.children())


def ratio(ta, tb, cap=60):
    """ta/tb as a polynomial when the division of the rational functions comes
    out exactly (nu0/(nu0/(1+z)) - 1 and the like); None otherwise.  Every
    denominator inside the terms is known to be non-zero on this path."""
    one, atoms = {(): Fraction(1)}, {}

    def mul(p, q):
        out = {}
        for k1, c1 in p.items():
            for k2, c2 in q.items():
                k = tuple(sorted(k1 + k2))
                out[k] = out.get(k, 0) + c1 * c2
        if len(out) > cap:
            raise OverflowError
        return {k: c for k, c in out.items() if c}

    def add_(p, q, s=1):
        out = dict(p)
        for k, c in q.items():
            out[k] = out.get(k, 0) + s * c
        return {k: c for k, c in out.items() if c}

    def go(u, depth=12):
        if z3.is_rational_value(u):
            c = Fraction(u.numerator_as_long(), u.denominator_as_long())
            return ({(): c} if c else {}), one
        if z3.is_app(u) and depth:
            k = u.decl().kind()
            ch = u.children()
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
                n, d = go(ch[0], depth - 1)
                for x in ch[1:]:
                    m, e = go(x, depth - 1)
                    s = 1 if k == z3.Z3_OP_ADD else -1
                    if e == d:
                        n = add_(n, m, s)
                    else:
                        n, d = add_(mul(n, e), mul(m, d), s), mul(d, e)
                return n, d
            if k == z3.Z3_OP_UMINUS:
                n, d = go(ch[0], depth - 1)
                return mul(n, {(): Fraction(-1)}), d
            if k == z3.Z3_OP_MUL:
                n, d = one, one
                for x in ch:
                    m, e = go(x, depth - 1)
                    n, d = mul(n, m), mul(d, e)
                return n, d
            if k == z3.Z3_OP_DIV:
                n, d = go(ch[0], depth - 1)
                m, e = go(ch[1], depth - 1)
                if not m:
                    raise OverflowError
                return mul(n, e), mul(d, m)
        atoms[u.get_id()] = u
        return {(u.get_id(),): Fraction(1)}, one
    try:
        n, d = go(ta)
        m, e = go(tb)
        n, d = mul(n, e), mul(d, m)
        if not d:
            return None
        top = lambda p: max(p, key=lambda k: (len(k), k))
        lead, out = top(d), {}
        for _ in range(cap):
            if not n:
                break
            t = list(top(n))
            c = n[tuple(t)] / d[lead]
            for x in lead:
                if x not in t:
                    return None
                t.remove(x)
            out[tuple(t)] = c
            n = add_(n, mul({tuple(t): c}, d), -1)
        if n:
            return None
    except OverflowError:
        return None
    if len(out) > 2 or any(len(k) > 1 for k in out):
        return None  # expanded polynomials are harder for the solver than quotients
    r = z3.RealVal(0)
    for k, c in out.items():
        v = z3.Q(c.numerator, c.denominator)
        for x in k:
            v = v * atoms[x]
        r = r + v
    return z3.simplify(r)


def floor_divide(a, b):
    a, b = norm(a), norm(b)
    if conc(a, b):
        return npbin(np.floor_divide)(a, b)
    if _isint(a) and _isint(b) and not is_sym(b) and b > 0:
        return mk(zterm(a, False) / z3.IntVal(int(b)), True)
    q = divide(a, b)
    r = floor(q)
    if _isint(a) and _isint(b):
        return trunc_int(r)
    return r


def remainder(a, b):
    a, b = norm(a), norm(b)
    if conc(a, b):
        return npbin(np.remainder)(a, b)
    if _isint(a) and _isint(b) and not is_sym(b) and b > 0:
        return mk(zterm(a, False) % z3.IntVal(int(b)), True)
    if not is_sym(b) and b == 0:
        return math.nan
    return subtract(a, multiply(b, floor_divide(a, b)))


def fmod(a, b):
    a, b = norm(a), norm(b)
    if conc(a, b):
        return npbin(np.fmod)(a, b)
    return subtract(a, multiply(b, trunc(divide(a, b))))


def power(a, b):
    a, b = norm(a), norm(b)
    if conc(a, b):
        return npbin(np.power)(a, b)
    if isinstance(b, SymBool):
        return ite(b, a, 1 if _isint(a) else 1.0)
    if isinstance(b, Sym):
        if b.isint:
            return power(a, b.__index__())
        if not is_sym(a):
            if a <= 0:
                raise Unsupported('power with symbolic exponent and non-positive base')
            if a == 10 and b.prov and b.prov[0] == 'log10':
                return b.prov[1]
            r = exp(multiply(b, math.log(a)))
            if a == 10 and isinstance(r, Sym):
                r = mk(r.e, False)
                r.prov = ('pow10', b)
            return r
        return exp(multiply(b, log(a)))
    if iscplx(b):
        raise Unsupported('complex exponent')
    a = tonum(a)
    bf = float(b)
    if bf == int(bf) and abs(bf) <= 64:
        n = int(bf)
        isf = isinstance(b, float) and _isint(a)
        if isf and isinstance(a, Sym):
            a = mk(zterm(a), False)
        if n == 0:
            return 1 if _isint(a) else 1.0
        if n < 0:
            return divide(1.0, power(a, -n))
        r = None
        base = a
        while n:
            if n & 1:
                r = base if r is None else multiply(r, base)
            n >>= 1
            if n:
                base = multiply(base, base)
        return r
    if isinstance(a, SymC):
        if bf == 0.5:
            raise Unsupported('complex sqrt')
        raise Unsupported('complex power')
    if bf == 0.5:
        return sqrt(a)
    if bf == -0.5:
        return divide(1.0, sqrt(a))
    if 2 * bf == int(2 * bf) and abs(bf) < 10:
        n = int(math.floor(bf))
        return multiply(power(a, n), sqrt(a))
    ta = zterm(a)
    if decide(ta < 0):
        return math.nan
    if decide(ta == 0):
        return 0.0 if bf > 0 else math.inf
    if 3 * bf == round(3 * bf) and abs(bf) < 6:
        # cube roots are exact: a**bf = (a**(1/3))**n
        E = eng()
        ts = z3.simplify(ta, som=True)
        apps = E.uf_apps.setdefault('cbrt', [])
        for s, r in apps:
            if s.eq(ts):
                break
        else:
            s = E.fresh('cbrt')
            E.axiom(z3.And(s > 0, s * s * s == ta))
            r = Sym(s, False)
            apps.append((ts, r))
        return power(r, int(round(3 * bf)))
    return ufun('pow[%r]' % bf, a, inc=bf > 0, at=((1.0, 1.0),), lo=0.0, strict_lo=True)


def float_power(a, b):
    return power(multiply(a, 1.0), b)


def square(a):
    return multiply(a, a)


def reciprocal(a):
    return divide(1.0, a)


# -------------------------------------------------- transcendental functions
def ufun(name, a, inc=None, at=(), lo=None, hi=None, strict_lo=False):
    """Uninterpreted function with monotonicity, range and point axioms."""
    E = eng()
    t = z3.simplify(zterm(a))
    apps = E.uf_apps.setdefault(name, [])
    for s, r in apps:
        if s.eq(t):
            return mk(r, False)
    r = E.uf(name, t)
    if lo is not None:
        E.axiom(r > zreal(lo) if strict_lo else r >= zreal(lo))
    if hi is not None:
        E.axiom(r <= zreal(hi))
    if inc is not None:
        for x, y in at:
            lt, gt = (r < zreal(y), r > zreal(y)) if inc else (r > zreal(y), r < zreal(y))
            E.axiom(z3.And(z3.Implies(t < zreal(x), lt), z3.Implies(t > zreal(x), gt),
                           z3.Implies(t == zreal(x), r == zreal(y))))
        for s, q in apps:
            lt, gt = (r < q, r > q) if inc else (r > q, r < q)
            E.axiom(z3.And(z3.Implies(t < s, lt), z3.Implies(t > s, gt), z3.Implies(t == s, r == q)))
    else:
        for x, y in at:
            E.axiom(z3.Implies(t == zreal(x), r == zreal(y)))
    apps.append((t, r))
    E.path_notes.append(name)
    return mk(r, False)


def exp(a):
    a = norm(a)
    if conc(a):
        return np1(np.exp)(a)
    if isinstance(a, SymC):
        m = exp(a.re)
        return mkc(multiply(m, cos(a.im)), multiply(m, sin(a.im)))
    if isinstance(a, Sym) and a.prov and a.prov[0] == 'log':
        return a.prov[1]
    logs = eng().uf_apps.get('log of', ())
    if logs and isinstance(a, Sym):
        t = z3.simplify(zterm(a))
        n = z3.simplify(-t)
        for s, y in logs:
            if s.eq(t):
                return y
            if s.eq(n):
                return divide(1.0, y)
    r = ufun('exp', a, inc=True, at=((0.0, 1.0),), lo=0.0, strict_lo=True)
    if is_sym(r):
        r.prov = ('exp', a)
    return r


def log(a):
    a = norm(a)
    if conc(a):
        return np1(np.log)(a)
    if isinstance(a, Sym) and a.prov and a.prov[0] == 'exp':
        return a.prov[1]
    t = zterm(a)
    if decide(t <= 0):
        return -math.inf if decide(t == 0) else math.nan
    r = _log_factored(z3.simplify(t))
    if r is None:
        r = ufun('log', a, inc=True, at=((1.0, 0.0),))
    if isinstance(r, Sym):
        r.prov = ('log', a)
        eng().uf_apps.setdefault('log of', []).append((z3.simplify(zterm(r)), a))
    return r


def _log_factored(t):
    """log(c*exp(x)*r) = log(c) + x + log(r) for a positive product; None if there is nothing to split."""
    E = eng()
    exps = {r.get_id(): s for s, r in E.uf_apps.get('exp', ())}
    c, terms, rest = 1.0, [], None

    def walk(t, n):
        nonlocal c, rest
        k = t.decl().kind() if z3.is_app(t) else None
        if z3.is_rational_value(t):
            c *= float(t.as_fraction()) ** n
        elif t.get_id() in exps:
            terms.append((n, exps[t.get_id()]))
        elif k == z3.Z3_OP_MUL:
            for x in t.children():
                walk(x, n)
        elif k == z3.Z3_OP_DIV and z3.is_rational_value(t.arg(1)):
            walk(t.arg(0), n)
            walk(t.arg(1), -n)
        else:
            u = t if n == 1 else None
            if u is None:
                raise Unsupported('inverse factor in a logarithm')
            rest = u if rest is None else rest * u
    walk(t, 1)
    if c <= 0 or (c == 1.0 and not terms) or not math.isfinite(math.log(c)):
        return None
    r = math.log(c)
    for n, x in terms:
        r = add(r, multiply(float(n), mk(x, False)))
    if rest is not None:
        r = add(r, ufun('log', mk(rest, False), inc=True, at=((1.0, 0.0),)))
    return r


def log10(a):
    a = norm(a)
    if conc(a):
        return np1(np.log10)(a)
    if isinstance(a, Sym) and a.prov and a.prov[0] == 'pow10':
        return a.prov[1]
    r = multiply(log(a), 1.0 / math.log(10.0))
    if isinstance(r, Sym):
        r.prov = ('log10', a)
    return r


def log2(a):
    a = norm(a)
    if conc(a):
        return np1(np.log2)(a)
    return multiply(log(a), 1.0 / math.log(2.0))


def log1p(a):
    return log(add(a, 1.0))


def expm1(a):
    return subtract(exp(a), 1.0)


def exp2(a):
    return exp(multiply(a, math.log(2.0)))


def _sincos(a):
    E = eng()
    t = z3.simplify(zterm(a))
    s = ufun('sin', a, at=((0.0, 0.0),), lo=-1.0, hi=1.0)
    c = ufun('cos', a, at=((0.0, 1.0),), lo=-1.0, hi=1.0)
    key = ('sincos', t.get_id())
    if key not in E.uf_apps:
        E.uf_apps[key] = t
        E.axiom(s.e * s.e + c.e * c.e == 1)
    return s, c


def sin(a):
    a = norm(a)
    if conc(a):
        return np1(np.sin)(a)
    return _sincos(a)[0]


def cos(a):
    a = norm(a)
    if conc(a):
        return np1(np.cos)(a)
    return _sincos(a)[1]


def tan(a):
    a = norm(a)
    if conc(a):
        return np1(np.tan)(a)
    s, c = _sincos(a)
    return divide(s, c)


def _mono(name, npf, lo=None, hi=None, at=((0.0, 0.0),)):
    def f(a):
        a = norm(a)
        if conc(a):
            return np1(npf)(a)
        return ufun(name, a, inc=True, at=at, lo=lo, hi=hi)
    return f


arctan = _mono('arctan', np.arctan, -math.pi / 2, math.pi / 2)
tanh = _mono('tanh', np.tanh, -1.0, 1.0)
sinh = _mono('sinh', np.sinh)
arcsinh = _mono('arcsinh', np.arcsinh)


def cbrt(a):
    a = norm(a)
    if conc(a):
        return np1(np.cbrt)(a)
    if decide(zterm(a) < 0):
        return negative(power(negative(a), 1.0 / 3.0))
    return power(a, 1.0 / 3.0)


arcsin = _mono('arcsin', np.arcsin, -math.pi / 2, math.pi / 2)


def arccos(a):
    a = norm(a)
    if conc(a):
        return np1(np.arccos)(a)
    return ufun('arccos', a, inc=False, at=((1.0, 0.0),), lo=0.0, hi=math.pi)


def arctan2(a, b):
    a, b = norm(a), norm(b)
    if conc(a, b):
        return npbin(np.arctan2)(a, b)
    (ca, ta), (cb, tb) = _coef(a), _coef(b)
    t = ta if ta is not None else tb
    if (ta is None and ca != 0) or (tb is None and cb != 0) or (ta is not None and tb is not None and not ta.eq(tb)):
        raise Unsupported('arctan2 of a symbolic value')
    if decide(t == 0):
        return 0.0
    return math.atan2(ca, cb) if decide(t > 0) else math.atan2(-ca, -cb)


def _coef(a):
    """(c, t) with a = c*t, t a term or None."""
    if not is_sym(a):
        return float(a), None
    t = z3.simplify(zterm(a), som=True)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL and z3.is_rational_value(t.arg(0)):
        r = t.children()[1:]
        return float(t.arg(0).as_fraction()), (r[0] if len(r) == 1 else z3.simplify(z3.Product(*r)))
    return 1.0, t


def hypot(a, b):
    return sqrt(add(multiply(a, a), multiply(b, b)))


def deg2rad(a):
    return multiply(a, math.pi / 180)


def rad2deg(a):
    return multiply(a, 180 / math.pi)


def sinc(a):
    if conc(a):
        return norm(np.sinc(a))
    y = multiply(math.pi, a)
    if decide(zterm(y) == 0):
        return 1.0
    return divide(sin(y), y)


def _square(t):
    """(c, v) if t is c v v with a rational c > 0 and a symbol v."""
    if not z3.is_mul(t):
        return None
    a, c = list(t.children()), 1.0
    if len(a) == 2 and z3.is_mul(a[1]):
        a = a[:1] + a[1].children()
    if len(a) > 3:
        return None
    if z3.is_rational_value(a[0]):
        c = float(a.pop(0).as_fraction())
    if len(a) != 2 or not a[0].eq(a[1]) or not z3.is_const(a[0]) or not z3.is_real(a[0]) or c <= 0:
        return None
    return c, a[0]


def sqrt(a):
    a = norm(a)
    if conc(a):
        return np1(np.sqrt)(a)
    if isinstance(a, SymC):
        raise Unsupported('complex sqrt')
    a = tonum(a)
    E = eng()
    t = zterm(a)
    ts = z3.simplify(t, som=True)
    apps = E.uf_apps.setdefault('sqrt', [])
    for s, r in apps:
        if s.eq(ts):
            return r
    for s, r in apps[-12:]:
        d = z3.simplify(s - ts, som=True)
        if z3.is_rational_value(d) and d.numerator_as_long() == 0:
            return r
    m = _square(ts) if E.squares else None
    if m is not None:
        c, v = m
        r = multiply(math.sqrt(c), mk(v, False) if not decide(v < 0) else mk(-v, False))
        if isinstance(r, Sym):
            r = Sym(r.e, False, sq=a)
        apps.append((ts, r))
        return r
    nn = getattr(a, 'prov', None)
    if not (nn and nn[0] == 'nonneg') and decide(ts < 0):
        return math.nan
    s = E.fresh('sqrt')
    E.axiom(z3.And(s >= 0, s * s == t))
    E.defs[s.get_id()] = ('sqrt', t)
    r = Sym(s, False, sq=a)
    apps.append((ts, r))
    return r


def absolute(a):
    a = norm(a)
    if conc(a):
        return norm(np.abs(a))
    if isinstance(a, SymC):
        if not is_sym(a.im) and a.im == 0:
            return absolute(a.re)
        if not is_sym(a.re) and a.re == 0:
            return absolute(a.im)
        s = add(multiply(a.re, a.re), multiply(a.im, a.im))
        if isinstance(s, Sym):
            s = Sym(s.e, s.isint)
            s.prov = ('nonneg',)
        return sqrt(s)
    if isinstance(a, SymBool):
        return a
    t = a.e
    r = mk(z3.If(t >= 0, t, -t), a.isint)
    if not a.isint:
        r.sq = multiply(a, a)
    return r


def sign(a):
    a = norm(a)
    if conc(a):
        return norm(np.sign(a))
    t = a.e
    one, zero = (z3.IntVal(1), z3.IntVal(0)) if a.isint else (z3.RealVal(1), z3.RealVal(0))
    return mk(z3.If(t > 0, one, z3.If(t < 0, -one, zero)), a.isint)


def conjugate(a):
    a = norm(a)
    if iscplx(a):
        return mkc(cre(a), negative(cim(a)))
    return a


# ------------------------------------------------------------------ rounding
def floor(a):
    a = norm(a)
    if conc(a):
        return norm(np.floor(a))
    if _isint(a):
        return a
    return mk(z3.ToReal(z3.ToInt(a.e)), False)


def ceil(a):
    a = norm(a)
    if conc(a):
        return norm(np.ceil(a))
    if _isint(a):
        return a
    return mk(-z3.ToReal(z3.ToInt(-a.e)), False)


def trunc(a):
    a = norm(a)
    if conc(a):
        return norm(np.trunc(a))
    if _isint(a):
        return a
    return mk(z3.If(a.e >= 0, z3.ToReal(z3.ToInt(a.e)), -z3.ToReal(z3.ToInt(-a.e))), False)


def trunc_int(a):
    a = norm(a)
    if isinstance(a, SymC):
        raise TypeError('int of complex')
    if conc(a):
        return int(a)
    if isinstance(a, SymBool):
        return tonum(a)
    if a.isint:
        return a
    return mk(z3.If(a.e >= 0, z3.ToInt(a.e), -z3.ToInt(-a.e)), True)


def rint(a):
    a = norm(a)
    if conc(a):
        return norm(np.rint(a))
    if iscplx(a):
        return mkc(rint(a.re), rint(a.im))
    if _isint(a):
        return a
    h = a.e + z3.Q(1, 2)
    f = z3.ToInt(h)
    r = z3.If(z3.And(z3.ToReal(f) == h, f % 2 != 0), f - 1, f)
    return mk(z3.ToReal(r), False)


def round_(a, n=0):
    a = norm(a)
    if conc(a):
        return norm(np.round(a, n))
    if n == 0:
        return rint(a)
    if _isint(a) and n > 0:
        return a
    return divide(rint(multiply(a, 10.0 ** n)), 10.0 ** n)


# -------------------------------------------------------------- comparisons
def _cmp(npf, zop, nf):
    def f(a, b):
        a, b = norm(a), norm(b)
        if conc(a, b):
            return norm(npf(a, b))
        if iscplx(a) or iscplx(b):
            raise Unsupported('ordering of complex values')
        if _nonfinite(a) or _nonfinite(b):
            # any finite stand-in gives the right answer
            x = a if _nonfinite(a) else 0.0
            y = b if _nonfinite(b) else 0.0
            return norm(npf(x, y))
        real = not (_isint(a) and _isint(b))
        return fold(SymBool(z3.simplify(zop(zterm(a, real), zterm(b, real))) if False else zop(zterm(a, real), zterm(b, real))))
    return f


less = _cmp(np.less, operator.lt, None)
less_equal = _cmp(np.less_equal, operator.le, None)
greater = _cmp(np.greater, operator.gt, None)
greater_equal = _cmp(np.greater_equal, operator.ge, None)


def equal(a, b):
    a, b = norm(a), norm(b)
    if conc(a, b):
        return norm(np.equal(a, b))
    if iscplx(a) or iscplx(b):
        return and_(equal(cre(a), cre(b)), equal(cim(a), cim(b)))
    if _nonfinite(a) or _nonfinite(b):
        return False
    if isinstance(a, SymBool) and isinstance(b, SymBool):
        return SymBool(a.e == b.e)
    real = not (_isint(a) and _isint(b))
    ta, tb = zterm(a, real), zterm(b, real)
    if ta.eq(tb):
        return True
    return SymBool(ta == tb)


def not_equal(a, b):
    return not_(equal(a, b))


# -------------------------------------------------------------------- logic
def tobool(a):
    a = norm(a)
    if isinstance(a, SymBool):
        return a
    if isinstance(a, SymC):
        return or_(tobool(a.re), tobool(a.im))
    if isinstance(a, Sym):
        return SymBool(a.e != 0)
    return bool(a)


def not_(a):
    a = tobool(a)
    if isinstance(a, bool):
        return not a
    return SymBool(z3.Not(a.e))


def and_(a, b):
    a, b = tobool(a), tobool(b)
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return SymBool(z3.And(a.e, b.e))


def or_(a, b):
    a, b = tobool(a), tobool(b)
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return SymBool(z3.Or(a.e, b.e))


def xor_(a, b):
    a, b = tobool(a), tobool(b)
    if isinstance(a, bool):
        return not_(b) if a else b
    if isinstance(b, bool):
        return not_(a) if b else a
    return SymBool(z3.Xor(a.e, b.e))


def _bitw(boolop, npf):
    def f(a, b):
        a, b = norm(a), norm(b)
        if conc(a, b):
            return norm(npf(a, b))
        if _isbool(a) and _isbool(b):
            return boolop(a, b)
        if isinstance(a, (SymBool, bool)) or isinstance(b, (SymBool, bool)):
            # bool & int: only the low bit matters when both are 0/1
            pass
        return norm(npf(int(a), int(b)))   # forks over the integer values
    return f


bitwise_and = _bitw(and_, np.bitwise_and)
bitwise_or = _bitw(or_, np.bitwise_or)
bitwise_xor = _bitw(xor_, np.bitwise_xor)


def invert(a):
    a = norm(a)
    if conc(a):
        return norm(np.invert(a))
    if isinstance(a, SymBool):
        return not_(a)
    return subtract(-1, a)


def ite(c, a, b):
    """If-then-else of numbers, forking when a branch is not a real number."""
    c = norm(c)
    if not is_sym(c):
        return a if c else b
    c = fold(tobool(c))
    if not is_sym(c):
        return a if c else b
    a, b = norm(a), norm(b)
    if a is b:
        return a
    if conc(a, b):
        if type(a) is type(b) and a == b:
            return a
        if _isbool(a) and _isbool(b):
            return c if a else not_(c)
    if iscplx(a) or iscplx(b):
        return mkc(ite(c, cre(a), cre(b)), ite(c, cim(a), cim(b)))
    if _nonfinite(a) or _nonfinite(b) or not _numeric(a) or not _numeric(b):
        return a if decide(c.e) else b
    if _isbool(a) and _isbool(b):
        return SymBool(z3.If(c.e, as_z3bool(a), as_z3bool(b)))
    real = not (_isint(a) and _isint(b))
    return mk(z3.If(c.e, zterm(a, real), zterm(b, real)), not real)


def _numeric(x):
    return is_sym(x) or isinstance(x, (int, float))


def maximum(a, b):
    a, b = norm(a), norm(b)
    if conc(a, b):
        return norm(np.maximum(a, b))
    if _nonfinite(a) or _nonfinite(b):
        x, y = (a, b) if _nonfinite(a) else (b, a)
        return x if x != x or x > 0 else y
    return ite(greater_equal(a, b), a, b)


def minimum(a, b):
    a, b = norm(a), norm(b)
    if conc(a, b):
        return norm(np.minimum(a, b))
    if _nonfinite(a) or _nonfinite(b):
        x, y = (a, b) if _nonfinite(a) else (b, a)
        return x if x != x or x < 0 else y
    return ite(less_equal(a, b), a, b)


def fmax(a, b):
    a, b = norm(a), norm(b)
    if not is_sym(a) and a != a:
        return b
    if not is_sym(b) and b != b:
        return a
    return maximum(a, b)


def fmin(a, b):
    a, b = norm(a), norm(b)
    if not is_sym(a) and a != a:
        return b
    if not is_sym(b) and b != b:
        return a
    return minimum(a, b)


def heaviside(a, b):
    return ite(less(a, 0), 0.0, ite(equal(a, 0), b, 1.0))


def _each(a, f):
    a = norm(a)
    if conc(a):
        return f(a)
    if isinstance(a, SymC):
        return bool((not is_sym(a.re) and f(a.re)) or (not is_sym(a.im) and f(a.im)))
    return False


def isnan(a):
    return _each(a, lambda v: norm(np.isnan(v)))


def isinf(a):
    return _each(a, lambda v: norm(np.isinf(v)))


def isfinite(a):
    a = norm(a)
    if conc(a):
        return norm(np.isfinite(a))
    return not (isnan(a) or isinf(a))


def signbit(a):
    return less(a, 0)


def copysign(a, b):
    return multiply(absolute(a), ite(less(b, 0), -1.0, 1.0))


def ldexp(a, b):
    return multiply(a, power(2.0, b))


def logaddexp(a, b):
    return log(add(exp(a), exp(b)))


ELEM_BY_NAME = {
    'add': add, 'subtract': subtract, 'multiply': multiply, 'divide': divide, 'true_divide': divide,
    'floor_divide': floor_divide, 'remainder': remainder, 'mod': remainder, 'fmod': fmod, 'power': power,
    'float_power': float_power, 'square': square, 'reciprocal': reciprocal,
    'negative': negative, 'positive': positive, 'absolute': absolute, 'fabs': absolute, 'sign': sign,
    'sqrt': sqrt, 'cbrt': cbrt, 'exp': exp, 'exp2': exp2, 'expm1': expm1, 'log': log, 'log10': log10, 'log2': log2,
    'log1p': log1p, 'sin': sin, 'cos': cos, 'tan': tan, 'arcsin': arcsin, 'arccos': arccos, 'arctan': arctan,
    'arctan2': arctan2, 'hypot': hypot, 'sinh': sinh, 'tanh': tanh, 'arcsinh': arcsinh,
    'deg2rad': deg2rad, 'radians': deg2rad, 'rad2deg': rad2deg, 'degrees': rad2deg,
    'rint': rint, 'floor': floor, 'ceil': ceil, 'trunc': trunc,
    'less': less, 'less_equal': less_equal, 'greater': greater, 'greater_equal': greater_equal,
    'equal': equal, 'not_equal': not_equal,
    'logical_and': and_, 'logical_or': or_, 'logical_xor': xor_, 'logical_not': not_,
    'bitwise_and': bitwise_and, 'bitwise_or': bitwise_or, 'bitwise_xor': bitwise_xor, 'invert': invert,
    'maximum': maximum, 'minimum': minimum, 'fmax': fmax, 'fmin': fmin, 'heaviside': heaviside,
    'isnan': isnan, 'isinf': isinf, 'isfinite': isfinite, 'signbit': signbit, 'copysign': copysign,
    'conjugate': conjugate, 'logaddexp': logaddexp, 'ldexp': ldexp,
}
NP_BY_NAME = {n: getattr(np, n) for n in ELEM_BY_NAME}

KIND_BOOL = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and', 'logical_or',
             'logical_xor', 'logical_not', 'isnan', 'isinf', 'isfinite', 'signbit'}
KIND_FLOAT = {'divide', 'true_divide', 'float_power', 'reciprocal', 'sqrt', 'cbrt', 'exp', 'exp2', 'expm1', 'log',
              'log10', 'log2', 'log1p', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'arctan2', 'hypot', 'sinh',
              'tanh', 'arcsinh', 'deg2rad', 'radians', 'rad2deg', 'degrees', 'rint', 'heaviside', 'copysign', 'fabs',
              'logaddexp'}


def domain(x, cap=12):
    """Finite set of values of an integer term built from ite leaves, or None."""
    if isinstance(x, SymBool):
        return {False, True}
    if not isinstance(x, Sym):
        return {x}
    out, seen, st = set(), set(), [x.e]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_int_value(t):
            out.add(t.as_long())
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            st += [t.arg(1), t.arg(2)]
        else:
            return None
        if len(out) > cap:
            return None
    return out
