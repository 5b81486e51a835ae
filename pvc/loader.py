"""Loads the real modules of /repo for symbolic execution.

The source text is parsed on every run and executed unchanged except for five mechanical rewrites:
decimal literals become exact rationals, `/` and `**` go through functions that keep rationals exact,
`text % value` tolerates symbolic values, and loops over arrays of any length go through two arbitrary elements.  Imports of numpy, scipy, pyoscode, cobaya, warnings and
math resolve to the contracts in shim.py; everything else resolves to the real thing.
"""
import ast
import builtins
import functools
import numbers
import os
import sys
import types
from fractions import Fraction
from . import term as tm
from . import sym as sy
from . import shim
from .sym import Sym, SVec, SymMask, SymBool, Unsupported

REPO = os.environ.get('PVC_REPO', '/repo')
PACKAGES = ('primpy', 'cobaya_wrapper', 'bin')


class Rewrite(ast.NodeTransformer):
    def visit_Constant(self, node):
        if type(node.value) is float:
            return ast.copy_location(ast.Call(ast.Name('_pvc_F', ast.Load()), [ast.Constant(repr(node.value))], []), node)
        if type(node.value) is complex:
            return ast.copy_location(ast.Call(ast.Name('_pvc_C', ast.Load()), [ast.Constant(repr(node.value.imag))], []), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        f = {ast.Div: '_pvc_div', ast.Pow: '_pvc_pow', ast.Mod: '_pvc_mod'}.get(type(node.op))
        if f is None:
            return node
        return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [node.left, node.right], []), node)

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        f = {ast.Div: '_pvc_div', ast.Pow: '_pvc_pow', ast.Mod: '_pvc_mod'}.get(type(node.op))
        if f is None:
            return node
        load = ast.parse(ast.unparse(node.target), mode='eval').body
        return ast.copy_location(ast.Assign([node.target], ast.copy_location(
            ast.Call(ast.Name('_pvc_inplace', ast.Load()), [load, node.value, ast.Name(f, ast.Load())], []), node)), node)

    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = ast.copy_location(ast.Call(ast.Name('_pvc_iter', ast.Load()), [node.iter], []), node.iter)
        return node

    visit_comprehension = visit_For

    def visit_FormattedValue(self, node):
        # {expr:spec} -> {__show(expr, spec)}
        self.generic_visit(node)
        spec = node.format_spec or ast.Constant('')
        if isinstance(spec, ast.JoinedStr) and not spec.values:
            spec = ast.Constant('')
        call = ast.Call(ast.Name('_pvc_show', ast.Load()), [node.value, spec, ast.Constant(node.conversion)], [])
        return ast.copy_location(ast.FormattedValue(call, -1, None), node)


def _inplace(a, b, op):
    """a /= b, a **= b: arrays change in place."""
    r = op(a, b)
    return a._inplace(r) if isinstance(a, (Sym, SVec)) and a is not r else r


def _show(v, spec='', conv=-1):
    if isinstance(v, Fraction):
        v = float(v) if v.denominator != 1 else int(v)
    if isinstance(v, (Sym, SVec, SymMask, SymBool)):
        return '<%s>' % type(v).__name__
    if conv == 114:
        v = repr(v)
    return format(v, spec)


def _mod(a, b):
    if isinstance(a, str):
        parts = b if isinstance(b, tuple) else (b,)
        conv = []
        anysym = False
        for p in parts:
            if isinstance(p, Sym):
                anysym = True
                try:
                    p = float('nan') if p.t is tm.NAN else float(p)
                    if p == p and abs(p) != float('inf') and p == int(p):
                        p = int(p)
                except Unsupported:
                    return 'fmt(%s;%s)' % (a, ','.join(tm.show(q.t) if isinstance(q, Sym) else str(q) for q in parts))
            elif isinstance(p, Fraction):
                p = float(p) if p.denominator != 1 else int(p)
            elif isinstance(p, SymBool):
                p = bool(p)
            conv.append(p)
        return a % (tuple(conv) if isinstance(b, tuple) else conv[0])
    return a % b


def _isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(_isinstance(x, c) for c in cls)
    if cls is shim.NdArray:
        return shim.is_array(x)
    if cls is float or cls is FloatProxy:
        return builtins.isinstance(x, (float, Fraction)) or builtins.isinstance(x, Sym) and not x.arr
    if cls is IntProxy:
        return builtins.isinstance(x, int)
    if cls is ComplexProxy:
        return builtins.isinstance(x, complex)
    if builtins.isinstance(x, Sym) and cls in (numbers.Number, numbers.Complex, numbers.Real):
        return not x.arr
    return builtins.isinstance(x, cls)


class FloatProxy:
    stands_for = float

    def __new__(cls, x=0):
        if builtins.isinstance(x, (Sym, Fraction)):
            return x
        if builtins.isinstance(x, SVec) and len(x) == 1:
            return x[0]
        if builtins.isinstance(x, str):
            if x.lower() in ('inf', '-inf', 'nan'):
                return {'inf': shim.np.inf, '-inf': -shim.np.inf, 'nan': shim.np.nan}[x.lower()]
            return Fraction(x)
        if builtins.isinstance(x, SymBool):
            return Fraction(int(bool(x)))
        if builtins.isinstance(x, bool) or builtins.isinstance(x, int):
            return Fraction(x)
        return float(x)


class ComplexProxy:
    stands_for = complex

    def __new__(cls, re=0, im=0):
        if builtins.isinstance(re, Sym) or builtins.isinstance(im, (Sym, Fraction)) or builtins.isinstance(re, Fraction):
            return re + im * Sym(tm.IMAG)
        return complex(re, im)


class IntProxy(int):
    stands_for = int

    def __new__(cls, *a):
        if len(a) == 1 and builtins.isinstance(a[0], Sym):
            return int(a[0])
        return int(*a)


def _len(x):
    if builtins.isinstance(x, (Sym, shim.EvMat, shim.ArgIdx, SymMask)):
        s = x.shape[0] if builtins.isinstance(x, shim.EvMat) else x.size
        return s
    return len(x)


def generic_indices(n):
    """Two arbitrary (distinct) iterations stand for all of them."""
    sy.current.looped = True
    for i in (1, 2):
        j = tm.sym('#it%d' % i)
        sy.current.assume(tm.cmp('<=', tm.ZERO, j))
        sy.current.assume(tm.cmp('<', j, shim.num(n).t))
        yield Sym(j)


def _iter(x):
    """What a loop goes through."""
    if builtins.isinstance(x, Sym) and x.arr and x.size.t.k != 'num':
        return [x[j] for j in generic_indices(x.size)]
    return x


def _enumerate(x, start=0):
    if builtins.isinstance(x, Sym) and x.arr:
        return [(j + start if start else j, x[j]) for j in generic_indices(x.size)]
    return enumerate(x, start)


def _range(*a):
    if any(builtins.isinstance(v, Sym) and v.t.k != 'num' for v in a):
        if len(a) != 1:
            raise Unsupported('range with symbolic bounds')
        return list(generic_indices(a[0]))
    return range(*[int(v) for v in a])


def _zip(*a, **k):
    if any(builtins.isinstance(v, Sym) and v.arr for v in a):
        n = next(v.size for v in a if builtins.isinstance(v, Sym) and v.arr)
        return [tuple(v[j] for v in a) for j in generic_indices(n)]
    return zip(*a, **k)


def _sum(x, start=0):
    if builtins.isinstance(x, (Sym, SymMask)):
        return start + (x.sum() if builtins.isinstance(x, SymMask) else shim.np_sum(x))
    return sum(x, start)


def _all(x):
    return shim.np_all(x) if builtins.isinstance(x, SymMask) else all(x)


def _any(x):
    return shim.np_any(x) if builtins.isinstance(x, SymMask) else any(x)


def _abs(x):
    return shim.np_abs(x) if builtins.isinstance(x, (Sym, SVec)) else abs(x)


def _minmax(pick, real):
    def f(*a, **k):
        xs = a[0] if len(a) == 1 else a
        if builtins.isinstance(xs, Sym):
            return (shim.np_min if real is min else shim.np_max)(xs)
        xs = list(xs)
        if any(builtins.isinstance(v, Sym) for v in xs):
            m = xs[0]
            for v in xs[1:]:
                m = pick(m, v)
            return m
        return real(xs, **k)
    return f


def _literal(s):
    return Fraction(s) if 'e' not in s and 'inf' not in s else (Fraction(s) if 'inf' not in s else shim.np.inf)


def _complex_literal(s):
    return Sym(tm.mul(tm.IMAG, tm.num(Fraction(s))))


class FakeSys(types.ModuleType):
    pass


@functools.lru_cache(maxsize=None)
def read(path):
    """Source and code of a module (once in a run: /repo does not change meanwhile)."""
    src = open(path).read()
    tree = Rewrite().visit(ast.parse(src, path))
    ast.fix_missing_locations(tree)
    return src, compile(tree, path, 'exec')


class Loader:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.sources = {}
        b = dict(vars(builtins))
        b.update(__import__=self._import, isinstance=_isinstance, float=FloatProxy, len=_len, int=IntProxy, complex=ComplexProxy,
                 sum=_sum, all=_all, any=_any,
                 enumerate=_enumerate, range=_range, zip=_zip, abs=_abs, _pvc_F=_literal, _pvc_C=_complex_literal,
                 _pvc_div=shim.py_div, _pvc_pow=shim.py_pow, _pvc_mod=_mod, _pvc_show=_show, _pvc_inplace=_inplace, _pvc_iter=_iter, pow=shim.py_pow,
                 min=_minmax(shim.np_min2, min), max=_minmax(shim.np_max2, max),
                 print=lambda *a, **k: None)
        self.builtins = b
        fs = types.ModuleType('sys')
        fs.__dict__.update({k: v for k, v in vars(sys).items() if not k.startswith('__')})
        fs.float_info = types.SimpleNamespace(epsilon=Fraction(1, 2 ** 52), max=Fraction(2) ** 1024,
                                              min=Fraction(1, 2 ** 1022))
        self.sys = fs

    def get(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name in shim.MODULES:
            return shim.MODULES[name]
        parent = None
        if '.' in name:
            parent = self.get(name.rsplit('.', 1)[0])
            if name in self.modules:
                return self.modules[name]
        base = os.path.join(self.repo, *name.split('.'))
        path, pkg = base + '.py', False
        if os.path.isdir(base):
            path, pkg = os.path.join(base, '__init__.py'), True
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        if pkg:
            m.__path__ = [base]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        self.modules[name] = m
        if os.path.exists(path):
            self.sources[path], code = read(path)
            exec(code, m.__dict__)
        elif not pkg:
            del self.modules[name]
            raise ImportError(name)
        if parent is not None:
            setattr(parent, name.rsplit('.', 1)[1], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        top = name.split('.')[0]
        if name == 'sys':
            return self.sys
        if top in PACKAGES or name in shim.MODULES:
            m = self.get(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try:
                            self.get(name + '.' + f)
                        except ImportError:
                            pass
                return m
            return self.get(top)
        return builtins.__import__(name, globals, locals, fromlist, level)
