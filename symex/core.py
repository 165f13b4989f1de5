"""Symbolic scalars and the path-exploring engine (z3 back end).

Floats are mathematical reals, Python/numpy integers are mathematical
integers.  A symbolic value is an immutable wrapper around a z3 term; every
Python operation on it builds a bigger term; every *decision* on it
(``bool()``, ``int()``, indexing) forks the execution, the two sides being
re-executed under the two path conditions.
"""
import math
import sys
import time
import random
from fractions import Fraction

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402
import numpy as _np  # noqa: E402


class GuardFork(Exception):
    """A decision the guard does not settle."""


class Infeasible(BaseException):
    """The current path condition is unsatisfiable."""


class Found(BaseException):
    """A counterexample was found: stop exploring."""


class Unsupported(Exception):
    """The encoding has no model for something the code did."""


class Budget(BaseException):
    """Path/time budget exhausted (inconclusive)."""


# ----------------------------------------------------------------- engine
class Stats:
    def __init__(self):
        self.queries = 0
        self.feas_queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.infeasible = 0
        self.checks = 0
        self.abstracted = 0
        self.unknown = 0
        self.trivial = 0

    def as_dict(self):
        return dict(self.__dict__)


BEAT = None        # shared memory: start time of the solver call in progress
SIMPLE = [False]


def new_solver(simple=False):
    return z3.SimpleSolver() if simple or SIMPLE[0] else z3.Solver()


def timed_check(s, *extra):
    """Solver call that run.py can see stalling (z3 can loop past its timeout)."""
    if BEAT is not None:
        BEAT.value = time.time()
    try:
        return s.check(*extra)
    finally:
        if BEAT is not None:
            BEAT.value = 0.0


class Engine:
    def __init__(self, seed=1, timeout_ms=4000, max_paths=5000, deadline=None):
        self.stats = Stats()
        self.seed = seed
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.reset_path([])
        self.cex = None            # (label, {name: value})
        self.unknowns = []
        self.stack = []
        self.ignore = set()
        self.alts = []

    # -- per path state
    def reset_path(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pc = []
        self.solver = new_solver()
        self.solver.set('timeout', self.timeout_ms)
        self.inputs = {}           # name -> (z3 var, kind)
        self.bounds = {}           # z3 var id -> (lo, hi)
        self.nfresh = 0
        self.defs = {}             # id of an auxiliary -> (kind, argument)
        self._iv, self._boxes = {}, {}
        self.uf_apps = {}          # function name -> list of (arg term, result term)
        self.squares = False        # sqrt(c v v) = sqrt(c) |v|
        self.path_notes = []
        self.last_model = None

    # -- solver helpers
    def _check(self, *extra, timeout=None):
        if self.deadline and time.time() > self.deadline:
            raise Budget('deadline')
        t = time.time()
        if timeout:
            self.solver.set('timeout', timeout)
        r = timed_check(self.solver, *extra)
        if timeout:
            self.solver.set('timeout', self.timeout_ms)
        self.stats.solver_s += time.time() - t
        return r

    guard = None    # evaluating under an assumption that is not part of the path

    def add(self, c):
        if self.guard is not None:
            raise GuardFork
        self.pc.append(c)
        self.solver.add(c)

    def assume(self, c):
        c = as_z3bool(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.add(c)
        if self.pos >= len(self.prefix):
            self.stats.feas_queries += 1
            if self._check() == z3.unsat:
                raise Infeasible()

    def axiom(self, c):
        """A fact true of every value (definition of an auxiliary)."""
        self.add(c)

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.guard is not None:
            if self.pos < len(self.prefix):
                b = self.prefix[self.pos]
            else:
                self.stats.feas_queries += 2
                b = None
                if self._check(z3.And(self.guard, c)) == z3.unsat:
                    b = False
                elif self._check(z3.And(self.guard, z3.Not(c))) == z3.unsat:
                    b = True
            self.pos += 1
            self.trace.append(b)
            if b is None:
                raise GuardFork
            return b
        if self.pos < len(self.prefix):
            b = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(b)
            self.add(c if b else z3.Not(c))
            return b
        self.stats.feas_queries += 2
        rt = self._check(c)
        if rt == z3.unsat:
            b = False
        else:
            rf = self._check(z3.Not(c))
            if rf == z3.unsat:
                b = True
            else:
                b = True
                self.stack.append(self.trace + [False])
        self.pos += 1
        self.trace.append(b)
        self.add(c if b else z3.Not(c))
        return b

    def concretize(self, e):
        """Fork over every feasible value of the integer term e."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        if self.guard is not None:
            raise GuardFork
        while True:
            if self.pos < len(self.prefix):
                v, b = self.prefix[self.pos]
            else:
                self.stats.feas_queries += 1
                r = self._check()
                if r == z3.unsat:
                    raise Infeasible()
                if r != z3.sat:
                    raise Unsupported('cannot enumerate integer value (solver unknown)')
                v = self.solver.model().eval(e, model_completion=True).as_long()
                self.stats.feas_queries += 1
                b = True
                if self._check(e != v) != z3.unsat:
                    self.stack.append(self.trace + [(v, False)])
            self.pos += 1
            self.trace.append((v, b))
            self.add(e == v if b else e != v)
            if b:
                return v

    def fresh(self, name, sort='Real'):
        self.nfresh += 1
        n = f'{name}!{self.nfresh}'
        return z3.Real(n) if sort == 'Real' else z3.Int(n)

    # -- uninterpreted-but-monotone functions
    def uf(self, name, arg):
        f = z3.Function(name, z3.RealSort(), z3.RealSort())
        return f(arg)

    # -- assertions
    def poly(self, t, cap=60000):
        """Term as a polynomial {sorted atom-id tuple: (coefficient, atoms)};
        None if it gets too large."""
        memo = {}
        keep = self.__dict__.setdefault('_keep', [])

        def mul(p, q):
            if len(p) * len(q) > 4 * cap:
                raise OverflowError
            out = {}
            for k1, (c1, a1) in p.items():
                for k2, (c2, a2) in q.items():
                    k = tuple(sorted(k1 + k2)) if k1 and k2 else k1 or k2
                    c = c1 * c2
                    if k in out:
                        out[k] = (out[k][0] + c, out[k][1])
                    else:
                        out[k] = (c, a1 + a2)
            if len(out) > cap:
                raise OverflowError
            return out

        def addto(out, p, c):
            for k, (v, at) in p.items():
                if k in out:
                    out[k] = (out[k][0] + c * v, at)
                else:
                    out[k] = (c * v, at)

        def go(u):
            i = u.get_id()
            r = memo.get(i)
            if r is not None:
                return r[1]
            if z3.is_rational_value(u):
                r = {(): (Fraction(u.numerator_as_long(), u.denominator_as_long()), ())}
            elif z3.is_int_value(u):
                r = {(): (Fraction(u.as_long()), ())}
            else:
                k = u.decl().kind() if z3.is_app(u) else None
                if k == z3.Z3_OP_ADD:
                    r = {}
                    for x in u.children():
                        addto(r, go(x), 1)
                elif k == z3.Z3_OP_SUB:
                    ch = u.children()
                    r = {}
                    addto(r, go(ch[0]), 1)
                    for x in ch[1:]:
                        addto(r, go(x), -1)
                elif k == z3.Z3_OP_UMINUS:
                    r = {}
                    addto(r, go(u.arg(0)), -1)
                elif k == z3.Z3_OP_MUL:
                    r = None
                    for x in u.children():
                        r = go(x) if r is None else mul(r, go(x))
                elif k == z3.Z3_OP_DIV and z3.is_rational_value(u.arg(1)) and u.arg(1).numerator_as_long() != 0:
                    q = u.arg(1)
                    r = {}
                    addto(r, go(u.arg(0)), Fraction(q.denominator_as_long(), q.numerator_as_long()))
                elif k == z3.Z3_OP_DIV and not z3.is_rational_value(u.arg(1)):
                    inv = z3.RealVal(1) / u.arg(1)
                    r = mul(go(u.arg(0)), {(inv.get_id(),): (Fraction(1), (inv,))}) if not u.arg(0).eq(z3.RealVal(1)) else {(inv.get_id(),): (Fraction(1), (inv,))}
                    keep.append(inv)
                elif k == z3.Z3_OP_POWER and z3.is_rational_value(u.arg(1)) and u.arg(1).denominator_as_long() == 1 and 0 < u.arg(1).numerator_as_long() < 9:
                    b = go(u.arg(0))
                    r = b
                    for _ in range(u.arg(1).numerator_as_long() - 1):
                        r = mul(r, b)
                elif k == z3.Z3_OP_TO_REAL:
                    x = u.arg(0)
                    if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL) or z3.is_int_value(x):
                        r = go(x)
                    else:
                        r = {(x.get_id(),): (Fraction(1), (x,))}
                else:
                    r = {(i,): (Fraction(1), (u,))}
            memo[i] = (u, r)
            return r
        try:
            r = go(t)
        except OverflowError:
            return None
        for _ in range(4):
            dup = [k for k in r if len(k) > 1 and any(a == b and a in self.defs and self.defs[a][0] == 'sqrt' for a, b in zip(k, k[1:]))]
            if not dup:
                break
            try:        # the square of a root is its argument
                out = dict(r)
                for k in dup:
                    c, at = out.pop(k)
                    i = next(a for a, b in zip(k, k[1:]) if a == b and a in self.defs and self.defs[a][0] == 'sqrt')
                    rest = [a for a in at if a.get_id() != i]
                    rest += [a for a in at if a.get_id() == i][2:]
                    q = {tuple(sorted(a.get_id() for a in rest)): (c, tuple(rest))}
                    addto(out, mul(q, go(self.defs[i][1])), 1)
                r = out
            except OverflowError:
                break
        return r

    def range_of(self, e):
        """Concrete (lo, hi) enclosing every value of the term e on this path."""
        e = z3.simplify(e)
        cache = self.__dict__.setdefault('_ranges', {})
        if (e.get_id(), len(self.pc)) in cache:
            return cache[(e.get_id(), len(self.pc))][1]
        if z3.is_rational_value(e) or z3.is_int_value(e):
            v = float(Fraction(e.as_fraction()) if z3.is_rational_value(e) else e.as_long())
            return v, v
        b = None
        for n, (v, k) in self.inputs.items():
            if v.eq(e) or (k == 'int' and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL and e.arg(0).eq(v)):
                b = self.bounds.get(n)
        if b and b[0] is not None and b[1] is not None:
            return float(b[0]), float(b[1])
        self.stats.feas_queries += 1
        if self._check() != z3.sat:
            raise Unsupported('range of a term: no model')
        v0 = model_value(self.solver.model(), e, 'real')
        out = []
        for sg in (-1, 1):
            step = Fraction(1, 1024)
            for _ in range(60):
                cand = Fraction(math.floor((v0 + sg * step) * 64) if sg < 0 else math.ceil((v0 + sg * step) * 64), 64)
                q = z3.Q(cand.numerator, cand.denominator)
                self.stats.feas_queries += 1
                r = self._check(e * sg > q * sg)
                if r == z3.unsat:
                    break
                if r != z3.sat:
                    raise Unsupported('range of a term: solver gave no answer')
                w = model_value(self.solver.model(), e, 'real')
                step = max(2 * step, (w - v0) * sg * Fraction(5, 4))
            else:
                raise Unsupported('range of a term: unbounded')
            out.append(float(cand))
        cache[(e.get_id(), len(self.pc))] = (e, (out[0], out[1]))
        return out[0], out[1]

    def interval(self, e):
        """Interval enclosure (Fractions) of a term from the input bounds, or None."""
        memo = self.__dict__.setdefault('_iv', {})
        i = e.get_id()
        if i in memo:
            return memo[i][1]
        memo[i] = (e, None)
        r = None
        k = e.decl().kind() if z3.is_app(e) else None
        if z3.is_rational_value(e):
            v = Fraction(e.numerator_as_long(), e.denominator_as_long())
            r = (v, v)
        elif z3.is_int_value(e):
            r = (Fraction(e.as_long()),) * 2
        elif k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
            b = self.bounds.get(e.decl().name())
            if b and b[0] is not None and b[1] is not None:
                r = (Fraction(b[0]), Fraction(b[1]))
            elif i in self.defs:
                kind, t = self.defs[i]
                b = self.interval(t)
                if b is not None and kind == 'sqrt':
                    f = lambda x, s: Fraction(math.sqrt(max(0.0, float(x)))) * (1 + s * Fraction(1, 10 ** 12))
                    r = (f(b[0], -1), f(b[1], 1))
        elif k == z3.Z3_OP_TO_REAL:
            r = self.interval(e.arg(0))
        elif k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS):
            ch = [self.interval(x) for x in e.children()]
            if all(c is not None for c in ch):
                r = ch[0]
                if k == z3.Z3_OP_UMINUS:
                    r = (-r[1], -r[0])
                if k == z3.Z3_OP_MUL and len(ch) == 2 and e.arg(0).eq(e.arg(1)):
                    m = max(abs(r[0]), abs(r[1]))
                    lo = Fraction(0) if r[0] <= 0 <= r[1] else min(r[0] ** 2, r[1] ** 2)
                    r = (lo, m * m)
                else:
                    for c in ch[1:]:
                        if r is None:
                            break
                        if k == z3.Z3_OP_ADD:
                            r = (r[0] + c[0], r[1] + c[1])
                        elif k == z3.Z3_OP_SUB:
                            r = (r[0] - c[1], r[1] - c[0])
                        else:
                            if k == z3.Z3_OP_DIV:
                                if c[0] <= 0 <= c[1]:
                                    r = None
                                    break
                                c = (1 / c[1], 1 / c[0])
                            p = [x * y for x in r for y in c]
                            r = (min(p), max(p))
        if r is not None and any(x.denominator > 1 << 200 for x in r):
            r = (Fraction(math.floor(r[0] * (1 << 80)), 1 << 80), Fraction(math.ceil(r[1] * (1 << 80)), 1 << 80))
        memo[i] = (e, r)
        return r

    def boxes(self):
        if len(getattr(self, '_boxes', {})) != len(self.inputs):
            self._boxes = {}
            for n, (v, k) in self.inputs.items():
                b = self.bounds.get(n)
                if b and b[0] is not None and b[1] is not None:
                    m = max(abs(Fraction(b[0])), abs(Fraction(b[1])))
                    self._boxes[v.get_id()] = m
        return self._boxes

    def deflate(self, t, tol):
        """Split a simplified term into (main, rho): |t - main| <= rho <= tol/2,
        dropping the monomials that are rounding residue of the encoded
        constants.  (None, 0) if nothing can be dropped."""
        tot = self.poly(t)
        if tot is None:
            return None, 0
        bx = self.boxes()
        lim = Fraction(tol) / 2 / max(1, len(tot))
        rho, main = Fraction(0), []
        for key, (c, at) in tot.items():
            m = abs(c)
            for a in at:
                b = bx.get(a.get_id())
                if b is None:
                    b = self.interval(a)
                    if b is not None:
                        b = max(abs(b[0]), abs(b[1]))
                if b is None:
                    m = None
                    break
                m *= b
            if m is not None and m <= lim:
                rho += m
            elif c != 0:
                main.append((c, at))
        e = z3.RealVal(0)
        if main:
            ts = []
            for c, at in main:
                x = z3.Q(c.numerator, c.denominator)
                for a in at:
                    x = x * (z3.ToReal(a) if a.is_int() else a)
                ts.append(x)
            e = z3.Sum(ts) if len(ts) > 1 else ts[0]
        return e, rho

    def lower_bound(self, t):
        """A lower bound of the expanded polynomial from the input bounds (None
        if an atom is unbounded)."""
        p = self.poly(z3.simplify(t))
        if p is None or len(p) > 5000:
            return None
        tot = Fraction(0)
        for key, (c, at) in p.items():
            if c == 0:
                continue
            lo = hi = c
            done = set()
            for a in at:
                i = a.get_id()
                if i in done:
                    continue
                done.add(i)
                b = self.interval(a)
                if b is None:
                    return None
                n = sum(1 for x in at if x.get_id() == i)
                q = [b[0] ** n, b[1] ** n]
                if n % 2 == 0 and b[0] <= 0 <= b[1]:
                    q.append(Fraction(0))
                w = [lo * min(q), lo * max(q), hi * min(q), hi * max(q)]
                lo, hi = min(w), max(w)
            tot += lo
        return tot

    def tiny_rational(self, t, tol):
        """True if the term t, written as a fraction N/D, has an expanded
        numerator that is zero, or so small that |t| <= tol."""
        n, d = frac(t)
        if d.eq(z3.RealVal(1)) and not n.eq(t):
            pass
        elif d.eq(z3.RealVal(1)):
            return False
        p = self.poly(z3.simplify(n))
        if p is None:
            return False
        rho, bx = Fraction(0), None
        for key, (c, at) in p.items():
            if c == 0:
                continue
            if bx is None:
                bx = self.boxes()
                D = self.interval(d)
                if D is None or D[0] <= 0 <= D[1]:
                    return False
                low = min(abs(D[0]), abs(D[1]))
            m = abs(c)
            for a in at:
                b = self.interval(a)
                if b is None:
                    return False
                m *= max(abs(b[0]), abs(b[1]))
            rho += m
        return rho == 0 or rho <= Fraction(tol) * low

    def check(self, cond, label, stronger=(), abstract=None):
        """Decide: does cond hold for every input on this path?  `stronger` are
        weaker conditions whose violation makes a more robust counterexample."""
        self.stats.checks += 1
        if label in self.ignore:
            return
        self.alts = [z3.Not(as_z3bool(c)) for c in stronger if c is not True]
        if cond is True:
            self.stats.trivial += 1
            return
        c = as_z3bool(cond)
        if abstract is not None:
            # the same assertion with rounding residue replaced by its bound:
            # stronger, so unsat of its negation decides the original
            na = z3.simplify(z3.Not(as_z3bool(abstract)))
            self.stats.queries += 1
            if z3.is_false(na):
                self.stats.trivial += 1
                return
            if self._check(na) == z3.unsat:
                return
        neg = z3.simplify(z3.Not(c), som=True)
        if z3.is_false(neg):
            # discharged by the solver's own simplifier (normal form)
            self.stats.queries += 1
            self.stats.trivial += 1
            return
        self._decide_neg(neg, label)

    def _decide_neg(self, neg, label):
        self.stats.queries += 1
        r = self._check(neg)
        if r == z3.unsat:
            return
        if r == z3.sat:
            self._found(label, self._best(self.solver.model()))
        # nonlinear: abstraction proof
        t = time.time()
        if self._abstract_unsat(neg):
            self.stats.abstracted += 1
            self.stats.solver_s += time.time() - t
            return
        self.stats.solver_s += time.time() - t
        neg0 = neg
        for a in self.alts + [neg]:
            m = self._guided_sat(a)
            if m is not None:
                self._found(label, m)
        r = self._check(neg, timeout=self.timeout_ms * 8)
        if r == z3.unsat:
            return
        if r == z3.sat:
            self._found(label, self._best(self.solver.model()))
        self.stats.unknown += 1
        self.unknowns.append(label)

    def _best(self, m):
        for a in self.alts:
            self.stats.queries += 1
            if self._check(a) == z3.sat:
                return self.solver.model()
        return m

    def _found(self, label, model):
        vals = {}
        for name, (v, kind) in self.inputs.items():
            vals[name] = model_value(model, v, kind)
        self.cex = (label, vals)
        raise Found()

    def _guided_sat(self, neg):
        """Look for a counterexample with most inputs fixed (sound for sat)."""
        rng = random.Random(self.seed)
        names = [n for n, (v, k) in self.inputs.items() if k != 'bool']
        for keep in (0, 1, 2, 0, 1, 3, 2, 0):
            free = set(rng.sample(names, min(keep, len(names)))) if names else set()
            fix = []
            for n in names:
                if n in free:
                    continue
                v, kind = self.inputs[n]
                lo, hi = self.bounds.get(n, (-2, 2))
                lo = -2 if lo is None else lo
                hi = max(lo, 2) if hi is None else hi
                if kind == 'int':
                    fix.append(v == rng.randint(int(math.ceil(lo)), int(math.floor(hi))))
                else:
                    q = Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(rng.randint(0, 16), 16)
                    fix.append(v == z3.Q(q.numerator, q.denominator))
            s = new_solver()
            s.set('timeout', self.timeout_ms)
            s.add(*self.pc)
            s.add(neg, *fix)
            t = time.time()
            self.stats.queries += 1
            r = timed_check(s)
            self.stats.solver_s += time.time() - t
            if r == z3.sat:
                return s.model()
        return None

    def _abstract_unsat(self, neg):
        """Replace every nonlinear monomial by a fresh bounded variable and ask
        again (linear): unsat here implies unsat of the original."""
        table = {}
        side = []
        memo = {}
        boxes = {}
        for n, (v, k) in self.inputs.items():
            b = self.bounds.get(n)
            if b and b[0] is not None and b[1] is not None:
                boxes[v.get_id()] = (Fraction(b[0]), Fraction(b[1]))

        def mono_var(factors):
            key = tuple(sorted(f.get_id() for f in factors))
            if key in table:
                return table[key]
            w = z3.Real('mono!%d' % len(table))
            table[key] = w
            keep.append(factors)
            lo, hi = Fraction(1), Fraction(1)
            ok = True
            for f in factors:
                b = boxes.get(f.get_id())
                if b is None:
                    ok = False
                    break
                c = [lo * b[0], lo * b[1], hi * b[0], hi * b[1]]
                lo, hi = min(c), max(c)
            if ok:
                side.append(w >= z3.Q(lo.numerator, lo.denominator))
                side.append(w <= z3.Q(hi.numerator, hi.denominator))
            from collections import Counter
            if all(n % 2 == 0 for n in Counter(key).values()):
                side.append(w >= 0)
            return w
        keep = []

        def walk(t):
            i = t.get_id()
            if i in memo:
                return memo[i]
            if z3.is_mul(t) or (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_POWER):
                coeff, factors = [], []
                bad = False

                def flat(u):
                    nonlocal bad
                    if z3.is_mul(u):
                        for ch in u.children():
                            flat(ch)
                    elif z3.is_rational_value(u) or z3.is_int_value(u):
                        coeff.append(u)
                    elif z3.is_app(u) and u.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(u.arg(1)) \
                            and u.arg(1).denominator_as_long() == 1 and 0 < u.arg(1).numerator_as_long() < 9:
                        for _ in range(u.arg(1).numerator_as_long()):
                            flat(u.arg(0))
                    else:
                        factors.append(u)
                flat(t)
                if len(factors) > 1:
                    w = mono_var(factors)
                    r = w
                    for c in coeff:
                        r = c * r
                    memo[i] = r
                    return r
            if z3.is_app(t) and t.num_args() > 0:
                ch = [walk(c) for c in t.children()]
                try:
                    if any(a.get_id() != b.get_id() for a, b in zip(ch, t.children())):
                        r = t.decl()(*ch)
                    else:
                        r = t
                except z3.Z3Exception:
                    r = z3.substitute(t, *[(a, b) for a, b in zip(t.children(), ch)])
            else:
                r = t
            memo[i] = r
            return r
        try:
            n2 = walk(z3.simplify(neg, som=True))
            pcs = [walk(z3.simplify(p, som=True)) for p in self.pc]
        except z3.Z3Exception:
            return False
        if not table:
            return False
        s = new_solver(True)
        s.set('timeout', self.timeout_ms * 2)
        s.add(*side)
        s.add(*pcs)
        s.add(n2)
        self.stats.queries += 1
        return timed_check(s) == z3.unsat

    # -- driver
    def explore(self, fn):
        """Run fn once per feasible path."""
        self.stack = [[]]
        completed = 0
        while self.stack:
            prefix = self.stack.pop()
            if self.stats.paths >= self.max_paths:
                raise Budget('more than %d paths' % self.max_paths)
            if self.deadline and time.time() > self.deadline:
                raise Budget('deadline')
            self.reset_path(prefix)
            set_engine(self)
            self.stats.paths += 1
            try:
                fn()
                completed += 1
            except Infeasible:
                self.stats.infeasible += 1
            except Found:
                return 'cex'
        return 'unknown' if self.unknowns else ('proved' if completed else 'vacuous')


ENG = None


def frac(e):
    """(numerator, denominator) of a z3 real term, division-free."""
    k = e.decl().kind() if z3.is_app(e) else None
    one = z3.RealVal(1)
    if k == z3.Z3_OP_DIV:
        (a, b), (c, d) = frac(e.arg(0)), frac(e.arg(1))
        return a * d, b * c
    if k == z3.Z3_OP_MUL:
        n, d = one, one
        for x in e.children():
            a, b = frac(x)
            n, d = n * a, d * b
        return n, d
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        n, d = frac(e.arg(0))
        for x in e.children()[1:]:
            a, b = frac(x)
            if b.eq(d):
                n = n + a if k == z3.Z3_OP_ADD else n - a
            else:
                n, d = (n * b + a * d if k == z3.Z3_OP_ADD else n * b - a * d), d * b
        return n, d
    if k == z3.Z3_OP_UMINUS:
        n, d = frac(e.arg(0))
        return -n, d
    return e, one


def same_rational(a, b):
    (n, d), (m, k) = frac(z3.simplify(a)), frac(z3.simplify(b))
    r = z3.simplify(n * k - m * d, som=True)
    return z3.is_rational_value(r) and r.numerator_as_long() == 0


def set_engine(e):
    global ENG
    ENG = e


def eng():
    if ENG is None:
        raise Unsupported('symbolic value used outside an exploration')
    return ENG


def model_value(model, v, kind):
    x = model.eval(v, model_completion=True)
    if kind == 'bool':
        return bool(z3.is_true(x))
    if kind == 'int':
        return x.as_long()
    if z3.is_algebraic_value(x):
        x = x.approx(30)
    return Fraction(x.numerator_as_long(), x.denominator_as_long())


# ----------------------------------------------------------------- scalars
_CONST = {}


def zreal(v):
    """Exact z3 real for a concrete number."""
    if isinstance(v, (bool, _np.bool_)):
        v = int(v)
    key = (type(v) in (int, float) and v) or None
    if key is not None and v in _CONST:
        return _CONST[v]
    f = v if isinstance(v, Fraction) else Fraction(v) if isinstance(v, (int, float)) else Fraction(v.item())
    r = z3.Q(f.numerator, f.denominator)
    if key is not None and len(_CONST) < 100000:
        _CONST[v] = r
    return r


def is_sym(x):
    return isinstance(x, (Sym, SymBool, SymC))


def is_num(x):
    return isinstance(x, (int, float, _np.number, bool, _np.bool_, Fraction)) and not isinstance(x, (complex, _np.complexfloating))


def as_z3bool(c):
    if isinstance(c, SymBool):
        return c.e
    if isinstance(c, Sym):
        return c.e != 0
    if isinstance(c, z3.BoolRef):
        return c
    if isinstance(c, (_np.ndarray,)) and c.ndim == 0:
        return as_z3bool(c.item())
    return z3.BoolVal(bool(c))


def zterm(x, real=True):
    """z3 arithmetic term of a (symbolic or concrete) real number."""
    if isinstance(x, Sym):
        if real and x.isint:
            return z3.ToReal(x.e)
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0)) if real else z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, _np.bool_)):
        return z3.RealVal(int(x)) if real else z3.IntVal(int(x))
    if not real and isinstance(x, (int, _np.integer)):
        return z3.IntVal(int(x))
    return zreal(x)


def _isint(x):
    return (isinstance(x, Sym) and x.isint) or isinstance(x, (int, _np.integer, bool, _np.bool_, SymBool))


def _nonfinite(x):
    return isinstance(x, (float, _np.floating)) and not math.isfinite(x)


def mk(e, isint=None):
    if isint is None:
        isint = e.is_int()
    return Sym(e, isint)


class _Base:
    __slots__ = ()

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import sarray
        return sarray.apply_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import sarray
        return sarray.apply_function(func, args, kwargs)

    __array_priority__ = 1000.0

    def __float__(self):
        raise Unsupported('float() of a symbolic value at a boundary the encoding does not model')

    def __complex__(self):
        raise Unsupported('complex() of a symbolic value')

    def __format__(self, spec):
        from . import fsmodel
        return fsmodel.token(self, spec)

    def __repr__(self):
        return '<sym>'

    def __str__(self):
        from . import fsmodel
        return fsmodel.token(self)

    def __hash__(self):
        return id(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    # numpy-scalar-like attributes
    size = 1
    ndim = 0
    shape = ()

    @property
    def T(self):
        return self

    def item(self):
        return self

    def astype(self, dtype, copy=True):
        from . import sarray
        return sarray.cast_scalar(self, sarray.kind_of_dtype(dtype))

    def copy(self):
        return self

    def squeeze(self):
        return self

    def flatten(self):
        from . import sarray
        return sarray.obj_array([self])
    ravel = flatten

    def sum(self, *a, **k):
        return self
    mean = min = max = sum

    def __pos__(self):
        return self


def _bin(name):
    def f(self, other):
        from . import elem
        if isinstance(other, _np.ndarray) and not hasattr(other, 'unit'):
            from . import sarray
            return sarray.apply_ufunc(elem.NP_BY_NAME[name], '__call__', (self, other), {})
        if other is None or isinstance(other, (str, tuple, list, dict)):
            return NotImplemented
        if hasattr(other, 'unit') or hasattr(other, 'physical_type'):
            from . import units
            return units.qop(name, (self, other))
        return elem.ELEM_BY_NAME[name](self, other)
    return f


def _rbin(name):
    def f(self, other):
        from . import elem
        if isinstance(other, _np.ndarray) and not hasattr(other, 'unit'):
            from . import sarray
            return sarray.apply_ufunc(elem.NP_BY_NAME[name], '__call__', (other, self), {})
        if other is None or isinstance(other, (str, tuple, list, dict)):
            return NotImplemented
        if hasattr(other, 'unit') or hasattr(other, 'physical_type'):
            from . import units
            return units.qop(name, (other, self))
        return elem.ELEM_BY_NAME[name](other, self)
    return f


def _cmp(name):
    def f(self, other):
        from . import elem
        if isinstance(other, _np.ndarray) and not hasattr(other, 'unit'):
            from . import sarray
            return sarray.apply_ufunc(elem.NP_BY_NAME[name], '__call__', (self, other), {})
        if other is None or isinstance(other, (str, tuple, list, dict, type)):
            if name == 'equal':
                return False
            if name == 'not_equal':
                return True
            return NotImplemented
        if hasattr(other, 'unit'):
            from . import units
            return units.qop(name, (self, other))
        return elem.ELEM_BY_NAME[name](self, other)
    return f


class _Arith(_Base):
    __slots__ = ()
    __add__ = _bin('add'); __radd__ = _rbin('add')
    __sub__ = _bin('subtract'); __rsub__ = _rbin('subtract')
    __mul__ = _bin('multiply'); __rmul__ = _rbin('multiply')
    __truediv__ = _bin('divide'); __rtruediv__ = _rbin('divide')
    __floordiv__ = _bin('floor_divide'); __rfloordiv__ = _rbin('floor_divide')
    __mod__ = _bin('remainder'); __rmod__ = _rbin('remainder')
    __pow__ = _bin('power'); __rpow__ = _rbin('power')
    __lt__ = _cmp('less'); __le__ = _cmp('less_equal')
    __gt__ = _cmp('greater'); __ge__ = _cmp('greater_equal')
    __eq__ = _cmp('equal'); __ne__ = _cmp('not_equal')
    __hash__ = _Base.__hash__

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self


def _un(name):
    def f(self):
        from . import elem
        return elem.ELEM_BY_NAME[name](self)
    return f


class Sym(_Arith):
    """A symbolic real or integer."""
    __slots__ = ('e', 'isint', 'sq', 'prov')

    def __init__(self, e, isint=False, sq=None):
        self.e = e
        self.isint = isint
        self.sq = sq
        self.prov = None

    @property
    def dtype(self):
        return _np.dtype('int64') if self.isint else _np.dtype('float64')

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self
    conj = conjugate

    def __bool__(self):
        return eng().decide(self.e != 0)

    def __index__(self):
        if not self.isint:
            raise TypeError('symbolic float cannot be interpreted as an integer')
        return eng().concretize(self.e)

    def __int__(self):
        from . import elem
        return elem.trunc_int(self).__index__() if is_sym(elem.trunc_int(self)) else int(elem.trunc_int(self))

    def __trunc__(self):
        from . import elem
        return elem.trunc_int(self)

    def __round__(self, n=None):
        from . import elem
        r = elem.round_(self, n or 0)
        return elem.trunc_int(r) if n is None else r

    def __floor__(self):
        from . import elem
        return elem.trunc_int(elem.floor(self))

    def __ceil__(self):
        from . import elem
        return elem.trunc_int(elem.ceil(self))

    def is_integer(self):
        return SymBool(z3.IsInt(zterm(self)))

    __neg__ = _un('negative')
    __abs__ = _un('absolute')
    sqrt = _un('sqrt'); exp = _un('exp'); log = _un('log'); log10 = _un('log10')
    sin = _un('sin'); cos = _un('cos'); tan = _un('tan'); rint = _un('rint')
    floor = _un('floor'); ceil = _un('ceil')

    def __and__(self, o):
        from . import elem
        return elem.ELEM_BY_NAME['bitwise_and'](self, o)
    __rand__ = __and__

    def __or__(self, o):
        from . import elem
        return elem.ELEM_BY_NAME['bitwise_or'](self, o)
    __ror__ = __or__


class SymBool(_Arith):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    dtype = _np.dtype(bool)

    @property
    def real(self):
        return self

    def conjugate(self):
        return self

    def __bool__(self):
        return eng().decide(self.e)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__
    __and__ = _bin('bitwise_and'); __rand__ = _rbin('bitwise_and')
    __or__ = _bin('bitwise_or'); __ror__ = _rbin('bitwise_or')
    __xor__ = _bin('bitwise_xor'); __rxor__ = _rbin('bitwise_xor')
    __invert__ = _un('invert')
    __neg__ = _un('negative')
    __abs__ = _un('absolute')

    def all(self, *a, **k):
        return self
    any = all


class SymC(_Arith):
    """A complex number with real/imaginary parts each symbolic or concrete."""
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re = re
        self.im = im

    dtype = _np.dtype(complex)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return SymC(self.re, -self.im)
    conj = conjugate

    def __bool__(self):
        return bool((self.re != 0) | SymBool(as_z3bool(self.im != 0)))

    __neg__ = _un('negative')
    __abs__ = _un('absolute')
    sqrt = _un('sqrt'); exp = _un('exp')
