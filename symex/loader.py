"""Loads /repo/src/tools21cm twice from its current source: an untouched copy
(`tools21cm`, used for replays) and a symbolic copy (`symt2c`) whose builtins
and library imports are proxies.  Never reads .pyc files."""
import ast
import builtins
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import re
import z3
import subprocess
import sys
import sysconfig
import tempfile

from . import core
from .core import Infeasible, Found, Budget, Unsupported

SRC = os.environ.get('SYMEX_SRC', '/repo/src/tools21cm')
REAL, SYM = 'tools21cm', 'symt2c'

FUNCS_SEEN = set()


def mod_(a, b):
    if isinstance(a, str):
        if isinstance(b, tuple):
            b = tuple(_fmtval(x) for x in b)
        else:
            b = _fmtval(b)
        try:
            return a % b
        except (TypeError, ValueError):
            if _has(b):
                return '<fmt>'
            raise
    return a % b


def _has(b):
    from .sarray import has_sym
    return has_sym(b) or (isinstance(b, tuple) and any(isinstance(x, _S) for x in b)) or isinstance(b, _S)


class _S(str):
    pass


def _fmtval(x):
    from .sarray import SymArray, lower
    if core.is_sym(x):
        return _S('<sym>')
    if isinstance(x, SymArray):
        l = lower(x)
        return l if l is not None else _S('<sym>')
    return x


def get_(x, i):
    import numpy as np
    if type(x) is np.ndarray:
        from .sarray import has_sym, norm_index, wrap_real
        if has_sym(i):
            return x[norm_index(i)]
    return x[i]


class Rewrite(ast.NodeTransformer):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name('__symex_mod__', ast.Load()), [node.left, node.right], []), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not self.in_ann:
            sl = node.slice
            if any(isinstance(n, (ast.Starred,)) for n in ast.walk(sl)):
                return node
            return ast.copy_location(ast.Call(ast.Name('__symex_get__', ast.Load()), [node.value, _slice_expr(sl)], []), node)
        return node

    in_ann = False

    def visit_AnnAssign(self, node):
        old, self.in_ann = self.in_ann, True
        node.annotation = node.annotation
        self.in_ann = old
        node.target = self.visit(node.target)
        if node.value:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        node.annotation = None
        return node

    def visit_FunctionDef(self, node):
        node.returns = None
        self.generic_visit(node)
        return node

    def visit_Delete(self, node):
        return node

    def visit_Assign(self, node):
        return self.masked(node, node.targets[0] if len(node.targets) == 1 else None, None)

    def visit_AugAssign(self, node):
        return self.masked(node, node.target, node.op)

    def masked(self, node, tg, op):
        """`X[m] = f(Y[m], ...)` (and X[m] op= ...) with a symbolic mask m: the
        right-hand side is evaluated for every cell and merged, instead of
        forking on the set of selected cells."""
        orig = lambda: self.generic_visit(_copy(node))
        if not (isinstance(tg, ast.Subscript) and isinstance(tg.value, (ast.Name, ast.Attribute)) and _pure_mask(tg.slice)):
            return orig()
        key = ast.dump(tg.slice)
        hits = []

        def conv(e):
            if isinstance(e, ast.Subscript):
                if ast.dump(e.slice) == key and isinstance(e.value, (ast.Name, ast.Attribute)):
                    hits.append(1)
                    return ast.Call(ast.Name('__symex_S__', ast.Load()), [self.visit(_copy(e.value))], [])
                e = None
            if isinstance(e, ast.Constant):
                return e
            if isinstance(e, (ast.Name, ast.Attribute)) and not any(isinstance(n, (ast.Call, ast.Subscript)) for n in ast.walk(e)):
                return ast.Call(ast.Name('__symex_K__', ast.Load()), [_copy(e)], [])
            if isinstance(e, ast.BinOp):
                return self.binop(ast.BinOp(conv(e.left), e.op, conv(e.right)))
            if isinstance(e, ast.UnaryOp) and not isinstance(e.op, ast.Not):
                return ast.UnaryOp(e.op, conv(e.operand))
            if isinstance(e, ast.Compare) and len(e.ops) == 1:
                return ast.Compare(conv(e.left), e.ops, [conv(e.comparators[0])])
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in ('np', 'numpy') and e.func.attr in _PURE and not e.keywords:
                return ast.Call(_copy(e.func), [conv(a) for a in e.args], [])
            raise _Fork
        try:
            rhs = conv(node.value)
        except _Fork:
            return orig()
        if op is None and not hits:
            return orig()
        params = ast.arguments([], [ast.arg('__symex_S__'), ast.arg('__symex_K__')], None, [], [], None, [])
        full = ast.Lambda(params, rhs if op is None else self.binop(ast.BinOp(ast.Call(ast.Name('__symex_S__', ast.Load()), [self.visit(_load(tg.value))], []), op, rhs)))
        test = ast.Call(ast.Name('__symex_mset__', ast.Load()), [self.visit(_load(tg.value)), ast.Lambda(_noargs(), self.visit(_copy(tg.slice))), full, ast.Constant(op is not None)], [])
        r = ast.If(ast.UnaryOp(ast.Not(), test), [orig()], [])
        ast.copy_location(r, node)
        ast.fix_missing_locations(r)
        return r

    def binop(self, e):
        if isinstance(e.op, ast.Mod):
            return ast.Call(ast.Name('__symex_mod__', ast.Load()), [e.left, e.right], [])
        return e

    def visit_If(self, node):
        """if-conversion: an if chain that only stores into arrays
        (`if c: X[i] = v [elif ...]`, nested) becomes guarded stores when its
        condition is symbolic, instead of a fork."""
        if not _convertible([node]):
            self.generic_visit(node)
            return node
        out = self.merge(node, None)
        for x in out:
            ast.copy_location(x, node)
            ast.fix_missing_locations(x)
        return out

    def merge(self, node, outer):
        """Statements executing `node` under the guard variable expression outer."""
        arms, cur = [], node
        while True:
            arms.append((cur.test, cur.body))
            if len(cur.orelse) == 1 and isinstance(cur.orelse[0], ast.If):
                cur = cur.orelse[0]
                continue
            if cur.orelse:
                arms.append((None, cur.orelse))
            break
        self.nif += 1
        name = '__symex_c%d__' % self.nif
        load = lambda: ast.Name(name, ast.Load())
        plain = ast.If(self.visit(_copy(node.test)), self.block(node.body), self.block(node.orelse, False))
        tests = [ast.Lambda(_noargs(), self.cond(t)) for t, _ in arms if t is not None]
        merged = []
        for i, (t, b) in enumerate(arms):
            g = lambda: ast.Subscript(load(), ast.Constant(i), ast.Load())
            stores = []
            for st in b:
                if isinstance(st, ast.If):
                    stores += self.merge(st, g())
                    continue
                tg = st.targets[0] if isinstance(st, ast.Assign) else st.target
                arr, idx = self.visit(_copy(tg.value)), _slice_expr(self.visit(_copy(tg.slice)))
                val = self.visit(_copy(st.value))
                if isinstance(st, ast.AugAssign):
                    val = ast.BinOp(ast.Call(ast.Name('__symex_get__', ast.Load()), [arr, idx], []), st.op, val)
                stores.append(ast.Expr(ast.Call(ast.Name('__symex_setif__', ast.Load()), [g(), arr, idx, ast.Lambda(_noargs(), val)], [])))
            merged.append(ast.If(ast.Compare(g(), [ast.IsNot()], [ast.Constant(False)]), stores, []))
        guard = ast.Assign([ast.Name(name, ast.Store())],
                           ast.Call(ast.Name('__symex_guards__', ast.Load()), [ast.List(tests, ast.Load()), ast.Constant(len(arms)), outer if outer is not None else ast.Constant(None)], []))
        fall = [plain] if outer is None else [ast.If(_copy(outer), [plain], [])]
        return [guard, ast.If(ast.Compare(load(), [ast.Is()], [ast.Constant(None)]), fall, merged)]

    nif = 0


    def block(self, body, convert=True):
        out = []
        for x in body:
            y = self.generic_visit(_copy(x)) if isinstance(x, ast.If) and not convert else self.visit(_copy(x))
            out.extend(y if isinstance(y, list) else [y])
        return out

    def cond(self, t):
        if isinstance(t, ast.BoolOp):
            f = '__symex_and__' if isinstance(t.op, ast.And) else '__symex_or__'
            return ast.Call(ast.Name(f, ast.Load()), [ast.Lambda(_noargs(), self.cond(v)) for v in t.values], [])
        return self.visit(_copy(t))

    def visit_Try(self, node):
        self.generic_visit(node)
        if node.handlers:
            h = ast.ExceptHandler(ast.Name('__symex_ctl__', ast.Load()), None, [ast.Raise(None, None)])
            node.handlers.insert(0, ast.copy_location(h, node))
        return node


_PURE = {'sqrt', 'exp', 'log', 'log10', 'abs', 'absolute', 'sin', 'cos', 'tan', 'power', 'maximum', 'minimum', 'floor', 'ceil', 'square',
         'tanh', 'fabs', 'sign', 'add', 'subtract', 'multiply', 'divide', 'logical_not', 'logical_and', 'logical_or', 'rint', 'trunc'}


def _pure_mask(e):
    """Could e be a boolean mask, and is evaluating it twice harmless?"""
    if isinstance(e, ast.Name):
        return True
    if isinstance(e, (ast.Compare, ast.BinOp)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Invert):
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                if not (isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ('np', 'numpy')
                        and n.func.attr in _PURE | {'isnan', 'isfinite', 'isinf', 'isclose', 'invert'}):
                    return False
            elif isinstance(n, (ast.NamedExpr, ast.Lambda, ast.Await, ast.Yield, ast.YieldFrom, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                return False
        return True
    return False


def _load(n):
    n = _copy(n)
    for x in ast.walk(n):
        if hasattr(x, 'ctx'):
            x.ctx = ast.Load()
    return n


def mset_(x, m, f, aug):
    """x[m()] = f(S, K), cell by cell, when the mask is symbolic; False when the
    ordinary statement has to be executed."""
    import numpy as np
    from . import elem
    from .sarray import SymArray, base, cast_scalar, is_sym_mask, kind_of
    if not isinstance(x, SymArray) or x.size < 2:
        return False
    old = core.eng().guard
    try:
        mask = m()
        if not is_sym_mask(mask, x) or mask.ndim != x.ndim:
            return False

        E = core.eng()
        k, c = x._k, base(mask)
        at = [None]

        def sel(y):
            if not isinstance(y, np.ndarray) or y.shape != x.shape:
                raise _Fork
            return y[at[0]]

        def plain(y):
            if isinstance(y, (list, tuple)) or getattr(y, 'shape', ()) != ():
                raise _Fork
            return y
        new = {}
        for p in np.ndindex(*x.shape):
            g = c[p]
            if not core.is_sym(g):
                if not g:
                    continue
                g = True
            at[0] = p
            E.guard = z3.And(old, g.e) if old is not None and g is not True else old if g is True else g.e
            v = _scalar(f(sel, plain))
            if not (core.is_sym(v) or isinstance(v, (bool, int, float, np.number, np.bool_))) or aug and kind_of(v) != k:
                return False
            new[p] = cast_scalar(v, k)
            E.guard = old
            if g is not True:
                new[p] = elem.ite(g, new[p], base(x)[p])
    except (_Fork, core.GuardFork, IndexError, KeyError, ZeroDivisionError, TypeError, ValueError):
        return False
    finally:
        core.eng().guard = old
    for p, w in new.items():
        base(x)[p] = w
    return True


def _copy(n):
    import copy
    return copy.deepcopy(n)


def _noargs():
    return ast.arguments([], [], None, [], [], None, [])


def _store(st):
    if isinstance(st, ast.Assign) and len(st.targets) != 1:
        return False
    tg = st.targets[0] if isinstance(st, ast.Assign) else st.target
    bad = (ast.Call, ast.Lambda, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Starred, ast.Slice, ast.IfExp)
    return isinstance(tg, ast.Subscript) and isinstance(tg.value, ast.Name) and not any(isinstance(n, bad) for n in ast.walk(st))


def _convertible(body):
    n = 0
    for st in body:
        if isinstance(st, ast.If):
            if not (_convertible(st.body) and (not st.orelse or _convertible(st.orelse))):
                return False
        elif not isinstance(st, (ast.Assign, ast.AugAssign)) or not _store(st):
            return False
    return True


class _Fork(Exception):
    pass


def _scalar(v):
    import numpy as np
    from .sarray import SymArray
    if isinstance(v, SymArray):
        if v.shape != ():
            raise _Fork
        v = v[()]
    return v


def and_(*fs):
    return _bool(fs, True)


def or_(*fs):
    return _bool(fs, False)


def _bool(fs, conj):
    from . import elem
    acc = None
    for f in fs:
        try:
            v = _scalar(f())
        except (IndexError, KeyError, ZeroDivisionError, TypeError, ValueError):
            if acc is None:
                raise
            raise _Fork
        if isinstance(v, core.Sym):
            v = elem.not_equal(v, 0)
        if not core.is_sym(v):
            if bool(v) != conj:
                return v if acc is None else (not conj)
            continue
        acc = v if acc is None else (elem.and_(acc, v) if conj else elem.or_(acc, v))
    return acc if acc is not None else conj


def guards_(tests, n, outer=None):
    """Guards of the arms of an if chain; None when the chain is to be executed
    by the ordinary statement (no symbolic condition at the outer level, or a
    condition that cannot be evaluated ahead)."""
    from . import elem
    conds, symbolic = [], False
    try:
        for t in tests:
            v = _scalar(t())
            if isinstance(v, core.Sym):
                v = elem.not_equal(v, 0)
            if core.is_sym(v):
                symbolic = True
            elif not isinstance(v, (bool, int, float)) and getattr(v, 'shape', ()) != ():
                return None
            else:
                v = bool(v)
            conds.append(v)
            if v is True:
                break
    except _Fork:
        return None
    except (IndexError, KeyError, ZeroDivisionError, TypeError, ValueError):
        return None
    if not symbolic and outer is None:
        return None
    out, rest = [], True if outer is None else outer
    for v in conds:
        out.append(_and(rest, v))
        rest = _and(rest, elem.not_(v) if core.is_sym(v) else not v)
    while len(out) < n:
        out.append(rest)
        rest = False
    return out


def _and(a, b):
    from . import elem
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return elem.and_(a, b)


def setif_(g, x, i, f):
    """x[i] = f() under the guard g, merged when possible."""
    from . import elem
    from .sarray import SymArray
    if g is False:
        return
    if g is True:
        x[i] = f()
        return
    import numpy as np
    idx = i if isinstance(i, tuple) else (i,)
    if isinstance(x, SymArray) and len(idx) == x.ndim and all(isinstance(k, (int, np.integer)) for k in idx) or isinstance(x, (list, dict)) and len(idx) == 1 and isinstance(i, (int, str, np.integer)):
        try:
            v, old = _scalar(f()), _scalar(x[i])
            if all(core.is_sym(u) or isinstance(u, (bool, int, float, np.number, np.bool_)) for u in (v, old)):
                x[i] = elem.ite(g, v, old)
                return
        except (_Fork, IndexError, KeyError, ZeroDivisionError, TypeError, ValueError):
            pass
    if bool(g):
        x[i] = f()


def _slice_expr(sl):
    if isinstance(sl, ast.Slice):
        a = [x if x is not None else ast.Constant(None) for x in (sl.lower, sl.upper, sl.step)]
        return ast.Call(ast.Name('__symex_slice__', ast.Load()), a, [])
    if isinstance(sl, ast.Tuple):
        return ast.Tuple([_slice_expr(e) for e in sl.elts], ast.Load())
    return sl


def sym_builtins():
    from . import proxy
    from .sarray import all_list, any_list
    d = dict(builtins.__dict__)

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            root = name.split('.')[0]
            if root == REAL:
                name = SYM + name[len(REAL):]
                m = builtins.__import__(name, None, None, fromlist, 0)
                return m
            if root in proxy.TORCH_NAMES:
                raise ImportError('no module named %s' % name)
            if root in proxy.PROXIED:
                builtins.__import__(name, None, None, tuple(f for f in (fromlist or ()) if f != '*'), 0)
                return proxy.proxy_for(sys.modules[name if fromlist else root])
        return builtins.__import__(name, globals, locals, fromlist, level)

    def b_all(it):
        if isinstance(it, (list, tuple)) and any(core.is_sym(v) for v in it):
            return all_list(it)
        return builtins.all(it)

    def b_any(it):
        if isinstance(it, (list, tuple)) and any(core.is_sym(v) for v in it):
            return any_list(it)
        return builtins.any(it)

    def b_open(f, *a, **k):
        from . import fsmodel
        return getattr(fsmodel, 'open_', builtins.open)(f, *a, **k)

    d.update({'__import__': imp, 'float': proxy.FLOAT, 'int': proxy.INT, 'complex': proxy.COMPLEX, 'bool': proxy.BOOL,
              'isinstance': proxy.b_isinstance, 'issubclass': proxy.b_issubclass, 'type': proxy.b_type_cls, 'max': proxy.b_max, 'min': proxy.b_min,
              'round': proxy.b_round, 'print': proxy.b_print, 'divmod': proxy.b_divmod, 'all': b_all, 'any': b_any, 'open': b_open,
              '__symex_guards__': guards_, '__symex_setif__': setif_, '__symex_and__': and_, '__symex_or__': or_, '__symex_mod__': mod_, '__symex_get__': get_, '__symex_mset__': mset_, '__symex_slice__': slice, '__symex_ctl__': (Infeasible, Found, Budget, Unsupported)})
    return d


def pyx_to_py(src):
    out = []
    for line in src.split('\n'):
        s = line.strip()
        if re.match(r'(cimport\b|from\s+\S+\s+cimport\b)', s) or s.startswith('@cython.') or s.startswith('# cython:'):
            out.append('')
            continue
        m = re.match(r'^(\s*)cdef\s+(.*)$', line)
        if m and '(' not in m.group(2).split('=')[0].replace('np.ndarray[', '['):
            decl = m.group(2)
            if '=' in re.sub(r'\[[^\]]*\]', '', decl):
                d2 = re.sub(r'\[[^\]]*\]', '', decl.split('=', 1)[0])
                name = d2.split()[-1]
                out.append('%s%s = %s' % (m.group(1), name, decl.split('=', 1)[1].strip()))
            else:
                out.append(m.group(1) + 'pass')
            continue
        m = re.match(r'^(\s*)(def|cpdef|cdef)\s+(.*)$', line)
        if m and '(' in line:
            rest = re.sub(r'\[[^\]\(]*\]', '', m.group(3))
            name, args = rest.split('(', 1)
            name = name.split()[-1]
            tail = args[args.rindex(')'):]
            args = args[:args.rindex(')')]
            new = []
            for a in args.split(','):
                a = a.strip()
                if not a:
                    continue
                if '=' in a:
                    l, r = a.split('=', 1)
                    new.append(l.split()[-1] + '=' + r)
                else:
                    new.append(a.split()[-1])
            out.append('%sdef %s(%s%s' % (m.group(1), name, ', '.join(new), tail))
            continue
        out.append(line)
    return '\n'.join(out)


class Loader(importlib.abc.Loader):
    def __init__(self, pkg, path, pyx=False):
        self.pkg, self.path, self.pyx = pkg, path, pyx

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        if self.pyx:
            src = pyx_to_py(src)
        if self.pkg == SYM:
            tree = ast.parse(src, self.path)
            tree = Rewrite().visit(tree)
            ast.fix_missing_locations(tree)
            code = compile(tree, self.path, 'exec', dont_inherit=True)
            module.__dict__['__builtins__'] = BUILTINS[0]
        else:
            code = compile(src, self.path, 'exec', dont_inherit=True)
        module.__file__ = self.path
        exec(code, module.__dict__)

    def get_resource_reader(self, name):
        return None


BUILTINS = [None]


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        root, _, rest = fullname.partition('.')
        if root not in (REAL, SYM):
            return None
        p = os.path.join(SRC, *rest.split('.')) if rest else SRC
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            f = os.path.join(p, '__init__.py')
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(root, f), submodule_search_locations=[p])
        if os.path.exists(p + '.py'):
            return importlib.util.spec_from_file_location(fullname, p + '.py', loader=Loader(root, p + '.py'))
        if os.path.exists(p + '.pyx'):
            return importlib.util.spec_from_file_location(fullname, p + '.pyx', loader=Loader(root, p + '.pyx', pyx=True))
        return None


_installed = []


def install():
    if not _installed:
        sys.meta_path.insert(0, Finder())
        _installed.append(1)
        BUILTINS[0] = sym_builtins()


def load():
    """(symbolic package, real package)"""
    import importlib
    import warnings
    warnings.simplefilter('ignore')
    install()
    real = importlib.import_module(REAL)
    sym = importlib.import_module(SYM)
    from . import units
    units.install()
    return sym, real


def snapshot(root):
    snap = {}
    for n, m in list(sys.modules.items()):
        if (n == root or n.startswith(root + '.')) and m is not None:
            snap[n] = (m, dict(m.__dict__))
    return snap


def restore(snap):
    for n, (m, d) in snap.items():
        cur = m.__dict__
        for k in list(cur):
            if k not in d:
                del cur[k]
        for k, v in d.items():
            if cur.get(k) is not v:
                cur[k] = v
