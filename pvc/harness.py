"""The contract language.  A contract is a function of one argument `h`; the same text is

  * proved: executed on the real code with symbolic values, every `h.eq`/`h.true`/... being a
    verification condition under the facts of the path (mode 'sym'), and
  * replayed: executed on the real code under CPython with sampled floats (mode 'num').
"""
import random
import sys
from fractions import Fraction

REGISTRY = []


class Contract:
    def __init__(self, prop, name, fn, target, kw):
        self.prop, self.name, self.fn, self.target = prop, name, fn, target
        self.samples = kw.pop('samples', 6)
        self.timeout = kw.pop('timeout', 200)
        self.smt = kw.pop('smt', 4000)
        self.max_paths = kw.pop('max_paths', 3000)
        self.assumes = kw.pop('assumes', [])
        self.numeric = kw.pop('numeric', True)
        self.thorough = kw.pop('thorough', False)
        self.tol = kw.pop('tol', 1e-6)
        self.weight = kw.pop('weight', 1)
        self.bounded = kw.pop('bounded', None)
        self.noise = kw.pop('noise', 3e-14)
        if kw:
            raise TypeError(str(kw))


def contract(prop, name, target, **kw):
    def deco(fn):
        props = prop if isinstance(prop, (tuple, list)) else (prop,)
        for p in props:
            REGISTRY.append(Contract(p, name, fn, target, dict(kw)))
        return fn
    return deco


class Skip(Exception):
    """Sampled input outside the precondition."""


class SymH:
    mode = 'sym'
    sym = True

    def __init__(self, con, loader, ex):
        from . import shim
        self.con, self.loader, self.ex = con, loader, ex
        self.np = shim.np
        self.shim = shim
        self.record = shim.record
        self.obligations = []
        self.patches = []

    # ---- inputs
    def real(self, name, lo=None, hi=None, closed=False, sample=None):
        from . import term as tm
        from .sym import Sym, lift
        t = tm.sym(name)
        op = '<=' if closed else '<'
        if lo is not None:
            self.ex.assume(tm.cmp(op, lift(lo), t))
        if hi is not None:
            self.ex.assume(tm.cmp(op, t, lift(hi)))
        return Sym(t)

    def pos(self, name, sample=(0.3, 2.5)):
        return self.real(name, 0, None, sample=sample)

    def array(self, name, sample=None, fn=None, integer=False):
        from . import term as tm
        from .sym import Sym, GEN
        out = Sym(tm.elt(name, GEN), True)
        out.integer = integer
        return out

    def index(self, name, arr):
        """An arbitrary position in the array."""
        from . import term as tm
        from .sym import Sym, lift
        t = tm.sym('#at_' + name)
        self.ex.assume(tm.cmp('<=', tm.ZERO, t))
        self.ex.assume(tm.cmp('<', t, lift(arr.size)))
        self.record.index(t)
        return Sym(t)

    def tail(self, arr, value):
        """The array is constant over its last (five) elements."""
        from .sym import lift
        self.record.tails[arr.t] = lift(value)
        self.ex.assume(__import__('pvc.term').term.cmp('==', arr[-1].t, lift(value)))
        return arr

    def func(self, name, order=0):
        """Uninterpreted smooth real function of one variable."""
        from . import term as tm
        from .sym import wrap
        from .shim import num

        def f(x, n=order):
            s = num(x)
            return wrap(tm.uf(name, s.t, order=(n,)), s)
        return f

    def choose(self, name, options):
        from . import term as tm
        options = list(options)
        for k, o in enumerate(options[:-1]):
            if self.ex.branch(tm.ufb('#choice', '%s=%d' % (name, k))):
                return o
        return options[-1]

    def requires(self, cond):
        from .sym import SymBool, SymMask
        if isinstance(cond, (SymBool, SymMask)):
            self.ex.assume(cond.t)
        elif not cond:
            from .sym import PathAbort
            raise PathAbort()

    def everywhere(self, cond):
        """Required at every element of an array."""
        from . import term as tm
        from .sym import GEN
        self.ex.assume(cond.t)
        self.record.everywhere(lambda j: tm.subst(cond.t, {GEN: j}))

    def patch(self, obj, attr, value):
        """Stand in for a function or class of the module under test."""
        self.patches.append((obj, attr, getattr(obj, attr)))
        setattr(obj, attr, value)

    def module(self, name):
        return self.loader.get(name)

    def fresh(self):
        """Imports the modules anew: nothing has been asked of them yet."""
        return type(self.loader)(self.loader.repo).get

    def hook(self, name, fn):
        self.record.hooks[name] = fn

    def frac(self, a, b=1):
        return Fraction(a, b)

    def bunch(self, **kw):
        return self.shim.Bunch(**kw)

    def events(self, name, n):
        """(times, states) of an event: an arbitrary number of occurrences, n variables each."""
        from . import term as tm
        from .sym import Sym, GEN
        filt = (tm.ufb('#arr', name),)
        return (Sym(tm.elt(name + '_x', GEN), True, filt),
                self.shim.EvMat([Sym(tm.elt('%s_y%d' % (name, i), GEN), True, filt) for i in range(n)]))

    def size(self, x):
        return self.shim.np_size(x)

    def increasing(self, arr):
        """The elements of arr increase."""
        self.record.increases(arr.t)

    def interp(self, x, y, q):
        """Piecewise linear interpolation of a table."""
        from . import term as tm
        n = len(self.record.calls)
        r = self.shim.interp1d(x, y)(q)
        del self.record.calls[n:]
        return r

    def spline(self, x, y, q, k=3, ext='const', n=0):
        """n-th derivative of the interpolating spline of a table."""
        m = len(self.record.calls)
        r = self.shim.InterpolatedUnivariateSpline(x, y, k=k, ext=ext)._val(q, n)
        del self.record.calls[m:]
        return r

    def cleanup(self):
        for m, k, v in reversed(self.patches):
            setattr(m, k, v)
        del self.patches[:]

    # ---- calculus
    def D(self, f, x, n=1):
        """n-th derivative of f at the symbol x."""
        from . import term as tm
        from .sym import Sym
        from .shim import num
        t = num(f(x)).t
        for _ in range(n):
            t = tm.diff(t, {x.t: tm.ONE})
        return Sym(t)

    def along(self, f, xs, rates):
        """Rate of change of f(*xs) when each of xs (symbols) changes at the given rate."""
        from . import term as tm
        from .sym import Sym
        from .shim import num
        t = num(f(*xs)).t
        dots = {x.t: num(r).t for x, r in zip(xs, rates)}
        return Sym(tm.diff(t, dots))

    # ---- obligations
    def _ob(self, label, goal, text=''):
        from . import term as tm
        self.obligations.append((label, goal, list(self.ex.facts), text))
        if goal is not tm.FALSE:
            pass

    def eq(self, label, got, want, tol=None, scale=0.0):
        from . import term as tm
        from . import sym as sy
        from . import shim
        from .sym import Sym, SVec, SymBool, SymMask, lift, GEN
        if isinstance(want, (SVec, list, tuple)) or isinstance(got, (SVec, list, tuple)):
            g = list(got) if isinstance(got, (SVec, list, tuple)) else None
            w = list(want) if isinstance(want, (SVec, list, tuple)) else None
            if g is None or w is None or len(g) != len(w):
                self._ob(label, tm.FALSE, 'shapes differ: %r vs %r' % (got, want))
                return
            if not g:
                self._ob(label, tm.TRUE)
            for i, (a, b) in enumerate(zip(g, w)):
                self.eq('%s[%d]' % (label, i), a, b)
            return
        if isinstance(want, dict):
            if not isinstance(got, dict) or list(got) != list(want):
                self._ob(label, tm.FALSE, 'keys differ: %r vs %r' % (got, want))
                return
            for k in want:
                self.eq('%s[%s]' % (label, k), got[k], want[k])
            return
        if isinstance(want, (SymBool, SymMask)) or isinstance(got, (SymBool, SymMask)):
            a, b = sy.boolterm(got), sy.boolterm(want)
            self._ob(label, tm.bor(tm.band(a, b), tm.band(tm.bnot(a), tm.bnot(b))))
            return
        a, b = lift(got), lift(want)
        if a is None or b is None or isinstance(got, bool) or isinstance(want, bool):
            same = got is want or (a is None and b is None and type(got) is type(want) and got == want) or \
                (isinstance(got, bool) and isinstance(want, bool) and got == want)
            self._ob(label, tm.TRUE if same else tm.FALSE, '%r vs %r' % (got, want))
            return
        fg = set(got.filt) if isinstance(got, Sym) and got.arr else None
        fw = set(want.filt) if isinstance(want, Sym) and want.arr else None
        if fg is not None and fw is not None and fg != fw:
            self._ob(label, tm.FALSE, 'different selections')
            return
        if a is tm.NAN and b is tm.NAN:
            self._ob(label, tm.TRUE)
            return
        extra = [f for f in (fg or ())]
        goal = tm.cmp('==', a, b)
        self.obligations.append((label, goal, list(self.ex.facts) + extra, ''))

    def true(self, label, cond):
        from . import term as tm
        from . import sym as sy
        self._ob(label, sy.boolterm(cond))

    def le(self, label, a, b, tol=None):
        from . import term as tm
        from .sym import lift
        self._ob(label, tm.cmp('<=', lift(a), lift(b)))

    def lt(self, label, a, b):
        from . import term as tm
        from .sym import lift
        self._ob(label, tm.cmp('<', lift(a), lift(b)))

    def order(self, label, f, n, lam):
        """f (a polynomial in lam) vanishes through order n in lam."""
        from . import term as tm
        from . import norm
        from .shim import num
        ctx = norm.Ctx(self.ex.facts)
        p = ctx.nf(num(f).t)
        bad = {}
        for m, c in p.items():
            deg = 0
            for a, e in m:
                at = ctx.atoms[a]
                if at.kind == 'T' and at.data is lam.t:
                    deg = e
                elif type(e) is not int or e < 0:
                    self._ob(label, tm.FALSE, 'not a polynomial')
                    return
            if deg <= n:
                bad[deg] = bad.get(deg, 0) + 1
        self._ob(label, tm.FALSE if bad else tm.TRUE, 'orders that do not cancel: %s' % sorted(bad))

    def raises(self, label, exc, fn):
        from . import term as tm
        try:
            fn()
        except exc:
            self._ob(label, tm.TRUE)
            return True
        except Exception as e:
            from .sym import Unsupported
            if isinstance(e, Unsupported):
                raise
            self._ob(label, tm.FALSE, 'raised %s: %s' % (type(e).__name__, e))
            return False
        self._ob(label, tm.FALSE, 'no exception raised')
        return False

    def returns(self, label, fn):
        """fn() completes without exception; gives its value (None otherwise)."""
        from . import term as tm
        from .sym import Unsupported
        try:
            v = fn()
        except Unsupported:
            raise
        except Exception as e:
            self._ob(label, tm.FALSE, 'raised %s: %s' % (type(e).__name__, e))
            return None
        self._ob(label, tm.TRUE)
        return v

    def warned(self, category=None):
        return [w for w in self.record.warnings if category is None or issubclass(w[0], category)]

    def clear_warnings(self):
        del self.record.warnings[:]

    def close(self, x):
        return x


class NumH:
    mode = 'num'
    sym = False

    def __init__(self, con, rng, jitter=None, spread=1e-15):
        import numpy as np
        self.np = np
        self.jitter = jitter        # a source of (last-digit) changes of the inputs
        self.spread = spread
        self.compared = {}          # index in results -> the two numbers or arrays compared
        self.con = con
        self.rng = rng
        self.inputs = {}
        self.results = []
        self._warn = []
        self.patches = []
        self.shrink = 1
        self.orders = []

    def real(self, name, lo=None, hi=None, closed=False, sample=None):
        if sample is None:
            a = float(lo) if lo is not None else (float(hi) - 2 if hi is not None else -2.0)
            b = float(hi) if hi is not None else a + 3
        else:
            a, b = sample
            a, b = float(a), float(b)
            if lo is not None:
                a = max(a, float(lo))
            if hi is not None:
                b = min(b, float(hi))
        x = a + (b - a) * (0.03 + 0.94 * self.rng.random())
        if name == 'lam':
            x *= self.shrink
        if self.jitter:
            x *= 1 + self.jitter.uniform(-1, 1) * self.spread
        self.inputs[name] = x
        return x

    def index(self, name, arr):
        k = self.rng.randrange(len(arr))
        self.inputs[name] = k
        return k

    def tail(self, arr, value):
        if isinstance(value, complex):
            arr = arr + 0j
        arr[-5:] = value
        return arr

    def pos(self, name, sample=(0.3, 2.5)):
        return self.real(name, 0, None, sample=sample)

    def array(self, name, sample=None, fn=None):
        n = 40
        if fn is not None:
            x = self.np.array([fn(i / (n - 1)) for i in range(n)], dtype=float)
        else:
            a, b = sample or (0.5, 2.0)
            x = self.np.array([a + (b - a) * self.rng.random() for _ in range(n)])
        if self.jitter:
            x = x * self.np.array([1 + self.jitter.uniform(-1, 1) * self.spread for _ in range(n)])
        self.inputs[name] = x
        return x

    def func(self, name, order=0):
        rs = random.Random(hash_name(name) + self.rng.randrange(1 << 30))
        cs = [(0.4 + rs.random(), (rs.random() - 0.4) * 0.8) for _ in range(3)]
        np = self.np

        def f(x, n=order):
            return sum(a * b**n * np.exp(b * x) for a, b in cs)
        return f

    def choose(self, name, options):
        options = list(options)
        k = self.rng.randrange(len(options))
        self.inputs[name] = str(options[k])
        return options[k]

    def requires(self, cond):
        if not self.np.all(cond):
            raise Skip()

    everywhere = requires

    def patch(self, obj, attr, value):
        self.patches.append((obj, attr, getattr(obj, attr)))
        setattr(obj, attr, value)

    def module(self, name):
        import importlib
        if name.startswith('cobaya_wrapper'):
            _fake_cobaya()
        return importlib.import_module(name)

    def fresh(self):
        """Imports the modules anew: nothing has been asked of them yet."""
        import importlib
        own = {}

        def mine():
            return {k: v for k, v in sys.modules.items() if k.split('.')[0] in ('primpy', 'cobaya_wrapper')}

        def get(name):
            saved = mine()
            for k in saved:
                del sys.modules[k]
            sys.modules.update(own)
            try:
                m = importlib.import_module(name)
                own.update(mine())
            finally:
                for k in mine():
                    del sys.modules[k]
                sys.modules.update(saved)
            return m
        return get

    def hook(self, name, fn):
        """Stand in for a library function, wherever the loaded code refers to it."""
        import scipy.integrate
        import scipy.optimize
        import pyoscode
        mod, attr = dict(solve_ivp=(scipy.integrate, 'solve_ivp'), pyoscode=(pyoscode, 'solve'),
                         root_scalar=(scipy.optimize, 'root_scalar'))[name]
        old = getattr(mod, attr)
        for m in [mod] + [m for k, m in list(sys.modules.items())
                          if k.split('.')[0] in ('primpy', 'cobaya_wrapper') and m is not None]:
            for k, v in list(vars(m).items()):
                if v is old:
                    self.patches.append((m, k, v))
                    setattr(m, k, fn)

    def cleanup(self):
        for m, k, v in reversed(self.patches):
            setattr(m, k, v)
        del self.patches[:]

    def frac(self, a, b=1):
        return a / b

    def bunch(self, **kw):
        from scipy.optimize import OptimizeResult
        return OptimizeResult(**kw)

    def events(self, name, n):
        m = self.rng.randrange(4)
        self.inputs[name + ' occurrences'] = m
        return (self.np.array([self.rng.random() for _ in range(m)]),
                self.np.array([[self.rng.random() for _ in range(n)] for _ in range(m)]) if m else self.np.array([]))

    def size(self, x):
        return self.np.size(x)

    def increasing(self, arr):
        self.requires(self.np.all(self.np.diff(arr) > 0))

    def spline(self, x, y, q, k=3, ext='const', n=0):
        from scipy.interpolate import InterpolatedUnivariateSpline
        f = InterpolatedUnivariateSpline(x, y, k=k, ext=ext)
        return f.derivatives(q)[n] if n else f(q)

    def interp(self, x, y, q):
        from scipy.interpolate import interp1d
        return interp1d(x, y)(q)

    def D(self, f, x, n=1):
        if n > 1:
            return self.D(lambda y: self.D(f, y, n - 1), x)
        h = 1e-3 * max(abs(x), 1e-2)
        return (f(x - 2*h) - 8 * f(x - h) + 8 * f(x + h) - f(x + 2*h)) / (12 * h)

    def along(self, f, xs, rates):
        np = self.np
        m = max(np.max(np.abs(r) / np.maximum(np.abs(x), 0.1)) for x, r in zip(xs, rates))
        h = 1e-3 / max(m, 1e-9)

        def g(s):
            return f(*[x + s * r for x, r in zip(xs, rates)])
        return (g(-2*h) - 8 * g(-h) + 8 * g(h) - g(2*h)) / (12 * h)

    def _res(self, label, ok, text=''):
        self.results.append((label, bool(ok), text))

    def eq(self, label, got, want, tol=None, scale=0.0):
        np = self.np
        tol = tol or self.con.tol
        if isinstance(want, dict):
            if not isinstance(got, dict) or list(got) != list(want):
                return self._res(label, False, 'keys differ: %r vs %r' % (got, want))
            for k in want:
                self.eq('%s[%s]' % (label, k), got[k], want[k], tol, scale)
            return
        if isinstance(want, (list, tuple)) and not isinstance(got, (str, type(None))):
            try:
                n = len(got)
            except TypeError:
                return self._res(label, False, 'shapes differ: %r vs %r' % (got, want))
            if n != len(want):
                return self._res(label, False, 'shapes differ: %r vs %r' % (got, want))
            if n == 0:
                self._res(label, True)
            for i, (a, b) in enumerate(zip(got, want)):
                self.eq('%s[%d]' % (label, i), a, b, tol, scale)
            return
        if want is None or got is None or isinstance(want, (str, bool)) or isinstance(got, (str, bool)):
            if isinstance(got, np.bool_):
                got = bool(got)
            if isinstance(want, np.bool_):
                want = bool(want)
            return self._res(label, got is want or type(got) is type(want) and got == want, '%r vs %r' % (got, want))
        try:
            g, w = np.asarray(got), np.asarray(want)
            if g.dtype == object or w.dtype == object:
                return self._res(label, got is want or bool(np.all(g == w)), '%r vs %r' % (got, want))
            if g.shape != w.shape and g.size != 1 and w.size != 1:
                return self._res(label, False, 'shapes differ: %r vs %r' % (g.shape, w.shape))
            if g.dtype == bool or w.dtype == bool:
                return self._res(label, np.all(g == w), '%r vs %r' % (got, want))
            nan = np.isnan(g) & np.isnan(w)
            d = np.abs(g - w)
            m = tol * np.maximum(np.maximum(np.abs(g), np.abs(w)), np.maximum(scale, 1e-280))
            ok = np.all(nan | (d <= m) | (g == w))
        except TypeError:
            return self._res(label, got is want or got == want, '%r vs %r' % (got, want))
        self.compared[len(self.results)] = (g, w)
        self._res(label, ok, 'got %r want %r' % (_short(got), _short(want)))

    def judge_rounding(self, others):
        """Differences no larger than what changes in the last digits of the inputs make of either side are rounding."""
        np = self.np
        for i, (g, w) in self.compared.items():
            label, ok, text = self.results[i]
            if ok:
                continue
            sg, sw = 0, 0
            for o in others:
                if i >= len(o.results) or o.results[i][0] != label or i not in o.compared:
                    break
                og, ow = o.compared[i]
                if og.shape != g.shape or ow.shape != w.shape:
                    break
                sg, sw = np.fmax(sg, np.abs(og - g)), np.fmax(sw, np.abs(ow - w))
            else:
                if np.all(np.isnan(g) & np.isnan(w) | (np.abs(g - w) <= 8 * (sg + sw)) | (g == w)):
                    self.results[i] = (label, True, text)

    def true(self, label, cond):
        self._res(label, self.np.all(cond), 'condition is false')

    def le(self, label, a, b, tol=None):
        tol = tol or self.con.tol
        if self.np.any(self.np.iscomplex(a)) or self.np.any(self.np.iscomplex(b)):
            return self._res(label, False, 'not real: %r <= %r' % (a, b))
        self._res(label, a <= b + tol * max(abs(a), abs(b)), '%r <= %r' % (a, b))

    def lt(self, label, a, b):
        if self.np.any(self.np.iscomplex(a)) or self.np.any(self.np.iscomplex(b)):
            return self._res(label, False, 'not real: %r < %r' % (a, b))
        self._res(label, a < b, '%r < %r' % (a, b))

    def order(self, label, f, n, lam):
        self.orders.append((label, abs(float(f)), n, float(lam)))

    def judge_orders(self, others):
        """The same inputs at successively halved lam: f must fall at least like lam^(n+1)."""
        import math
        for i, (label, f, n, lam) in enumerate(self.orders):
            fs = [f] + [o.orders[i][1] if i < len(o.orders) else float('nan') for o in others]
            ok = all(x == x for x in fs)
            if ok and min(fs) > self.con.noise and fs[-1] > 0.05 * (lam / 2**len(others))**(n + 1):
                ok = any(math.log2(a / b) > n + 0.5 for a, b in zip(fs, fs[1:]))
            self._res(label, ok, '%s at lam = %r and successive halves does not fall like lam^%d' % (fs, lam, n + 1))

    def raises(self, label, exc, fn):
        try:
            fn()
        except exc:
            self._res(label, True)
            return True
        except Skip:
            raise
        except Exception as e:
            self._res(label, False, 'raised %s: %s' % (type(e).__name__, e))
            return False
        self._res(label, False, 'no exception raised')
        return False

    def returns(self, label, fn):
        try:
            v = fn()
        except Skip:
            raise
        except Exception as e:
            self._res(label, False, 'raised %s: %s' % (type(e).__name__, e))
            return None
        self._res(label, True)
        return v

    def warned(self, category=None):
        return [(w.category, str(w.message)) for w in self._warn
                if category is None or issubclass(w.category, category)]

    def clear_warnings(self):
        del self._warn[:]

    def close(self, x):
        return x


def _fake_cobaya():
    """cobaya is not installed here: its base class enters by its contract (stores parameters, does nothing else)."""
    if 'cobaya' in sys.modules:
        return
    import types
    c, t = types.ModuleType('cobaya'), types.ModuleType('cobaya.theory')

    class Theory:
        def initialize(self):
            pass

        def mpi_info(self, *a, **k):
            pass
    t.Theory = Theory
    c.theory = t
    sys.modules.update({'cobaya': c, 'cobaya.theory': t})


def hash_name(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) % (1 << 30)
    return h


def _short(x):
    s = repr(x)
    return s if len(s) < 200 else s[:200] + '...'
