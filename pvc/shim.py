"""Contracts (stubs) of numpy, scipy, pyoscode, cobaya and warnings used during symbolic execution."""
import types
from fractions import Fraction
import numpy as _np
from . import term as tm
from . import sym as sy
from .sym import cast, kind_of, Sym, SVec, SymMask, SymBool, GEN, BND, Unsupported, lift, wrap, bound, bfilt
from .term import T


class NdArray:
    """Stands for numpy.ndarray in isinstance tests."""


def is_array(x):
    return isinstance(x, (SVec, SymMask, EvMat, _np.ndarray)) or isinstance(x, Sym) and x.arr


def num(x):
    """Anything scalar to Sym."""
    if isinstance(x, Sym):
        return x
    t = lift(x)
    if t is None:
        raise Unsupported('number expected, got %s' % type(x).__name__)
    return Sym(t)


class Record:
    """Side effects observed on the current path."""

    def __init__(self):
        self.warnings = []
        self.calls = []
        self.counter = {}
        self.hooks = {}
        self.tails = {}             # arrays known to be constant over their last elements
        self.indices = []           # arbitrary positions introduced by the contract
        self.forall = []            # facts about every position, instantiated at those
        self.increasing = []        # arrays (their generic elements) that increase from position to position

    def everywhere(self, fact, positions=False):
        """fact(j) holds for every index j (positions: it compares j, so j must not count from the end)."""
        self.forall.append((fact, positions))
        for j in self.indices:
            self._at(fact, positions, j)

    def index(self, j):
        """Facts about all elements, at this index."""
        if j not in self.indices:
            self.indices.append(j)
            for fact, positions in self.forall:
                self._at(fact, positions, j)
            for a in self.increasing:
                for i in self.indices[:-1]:
                    self._ordered(a, i, j)

    def increases(self, a):
        self.increasing.append(a)
        for n, j in enumerate(self.indices):
            for i in self.indices[:n]:
                self._ordered(a, i, j)

    def _ordered(self, a, i, j):
        if any(x.k == 'num' and x.a[0] < 0 for x in (i, j)):
            return
        u, v = (tm.subst(a, {GEN: x}) for x in (i, j))
        for x, y, p, q in ((i, j, u, v), (j, i, v, u)):
            c = tm.bor(tm.cmp('<=', y, x), tm.cmp('<', p, q))
            if c is not tm.TRUE:
                sy.current.assume(c)

    def _at(self, fact, positions, j):
        if not (positions and j.k == 'num' and j.a[0] < 0):
            sy.current.assume(fact(j))

    def fresh(self, stem):
        n = self.counter.get(stem, 0) + 1
        self.counter[stem] = n
        return '%s%d' % (stem, n)


record = Record()


def branch(cond):
    return sy.current.branch(cond)


# ------------------------------------------------------------------ elementwise functions

def _lift1(f):
    def g(x, *args, **kw):
        if isinstance(x, (SVec, list, tuple)):
            return SVec([g(e) for e in x])
        if isinstance(x, SymBool):
            x = int(bool(x))
        s = num(x)
        if s.t is tm.NAN:
            return wrap(tm.NAN, s)
        return f(s)
    return g


def _unary(name):
    return _lift1(lambda s: wrap(tm.fn(name, s.t), s))


@_lift1
def np_abs(s):
    t = s.t
    if tm.has_imag(t):
        return wrap(tm.power(tm.mul(t, tm.conj(t)), tm.num(Fraction(1, 2))), s)
    if t.k == 'num':
        return wrap(tm.num(abs(t.a[0])), s)
    if s.arr:
        return wrap(tm.fn('abs', t), s)
    return wrap(t if branch(tm.cmp('<=', tm.ZERO, t)) else tm.neg(t), s)


@_lift1
def np_sign(s):
    t = s.t
    if t.k == 'num':
        return wrap(tm.num((t.a[0] > 0) - (t.a[0] < 0)), s)
    if s.arr:
        return wrap(tm.fn('sign', t), s)
    if branch(tm.cmp('<', tm.ZERO, t)):
        return Sym(tm.ONE)
    return Sym(tm.MONE) if branch(tm.cmp('<', t, tm.ZERO)) else Sym(tm.ZERO)


@_lift1
def np_real(s):
    t = s.t
    if not tm.has_imag(t):
        return s
    return wrap(tm.mul(tm.num(Fraction(1, 2)), tm.add(t, tm.conj(t))), s)


@_lift1
def np_imag(s):
    t = s.t
    if not tm.has_imag(t):
        return wrap(tm.ZERO, s)
    return wrap(tm.mul(tm.num(Fraction(-1, 2)), tm.IMAG, tm.sub(t, tm.conj(t))), s)


def np_conj(x):
    if isinstance(x, (SVec, list, tuple)):
        return SVec([np_conj(e) for e in x])
    return num(x).conjugate()


@_lift1
def np_floor(s):
    if s.t.k == 'num':
        return wrap(tm.num(s.t.a[0].__floor__()), s)
    return wrap(tm.fn('floor', s.t), s)


def _two(op):
    def f(a, b, **k):
        return op(a, b)
    return f


def py_pow(a, b):
    if isinstance(a, (int, Fraction)) and not isinstance(a, bool) and isinstance(b, (int, Fraction)):
        if isinstance(b, Fraction) and b.denominator == 1:
            b = int(b)
        if isinstance(b, int):
            if b >= 0 or a != 0:
                return Fraction(a) ** b if b < 0 or isinstance(a, Fraction) else a ** b
        return Sym(tm.power(tm.num(Fraction(a)), tm.num(Fraction(b))))
    if isinstance(a, Fraction):
        a = Sym(tm.num(a)) if not isinstance(b, (SVec,)) else a
    return a ** b


def py_div(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return Fraction(a) / Fraction(b)
    if isinstance(a, SymBool):
        a = int(bool(a))
    return a / b


def np_log_base(base):
    return _lift1(lambda s: wrap(tm.div(tm.fn('log', s.t), tm.fn('log', tm.num(base))), s))


def np_hypot(a, b):
    return np_sqrt(a * a + b * b)


np_sqrt = _unary('sqrt')
np_exp = _unary('exp')


def np_max2(a, b):
    a, b = num(a), num(b)
    if a.arr or b.arr:
        return np_where(b <= a, a, b)
    return a if branch(tm.cmp('<=', b.t, a.t)) else b


def np_min2(a, b):
    a, b = num(a), num(b)
    if a.arr or b.arr:
        return np_where(a <= b, a, b)
    return a if branch(tm.cmp('<=', a.t, b.t)) else b


def np_where(c, a=None, b=None):
    if a is None:
        return (np_argwhere(c),)
    if isinstance(c, SymMask):
        if c.t is tm.TRUE:
            return a
        if c.t is tm.FALSE:
            return b
        if isinstance(a, (SymMask, SymBool)) or isinstance(b, (SymMask, SymBool)):
            return c & a | ~c & b
        a, b = num(a), num(b)
        r = wrap(tm.ite(c.t, a.t, b.t), a, b)
        if r.arr and set(r.filt) != set(c.filt):
            raise Unsupported('arrays of different selections combined')
        return Sym(r.t, True, c.filt)
    return a if bool(c) else b


# ------------------------------------------------------------------ reductions

def only_axis(r, k):
    """Reductions over a whole one-dimensional array."""
    if r and r not in ((None,), (0,), (-1,)) or any(x not in ('axis', 'keepdims') or k[x] not in (None, 0, -1, False) for x in k):
        raise Unsupported('options of a reduction')


def np_min(x, *r, **k):
    only_axis(r, k)
    if isinstance(x, (SVec, list, tuple)):
        m = x[0]
        for e in list(x)[1:]:
            m = np_min2(m, e)
        return m
    if isinstance(x, Sym) and x.arr and not depends(x.t):
        return Sym(x.t)
    if isinstance(x, Sym) and x.arr:
        return Sym(tm.uf('#min', bound(x.t), *bfilt(x.filt)))
    return x


def np_max(x, *r, **k):
    only_axis(r, k)
    if isinstance(x, (SVec, list, tuple)):
        m = x[0]
        for e in list(x)[1:]:
            m = np_max2(m, e)
        return m
    if isinstance(x, Sym) and x.arr and not depends(x.t):
        return Sym(x.t)
    if isinstance(x, Sym) and x.arr:
        return Sym(tm.uf('#max', bound(x.t), *bfilt(x.filt)))
    return x


def np_median(x, *r, **k):
    only_axis(r, k)
    if isinstance(x, Sym) and x.arr and not depends(x.t):
        return Sym(x.t)
    if isinstance(x, Sym) and x.arr:
        return Sym(tm.uf('#median', bound(x.t), *bfilt(x.filt)))
    return x


def np_sum(x, *r, **k):
    only_axis(r, k)
    if isinstance(x, SymMask):
        return x.sum()
    if isinstance(x, (SVec, list, tuple)):
        s = 0
        for e in x:
            s = s + e
        return s
    if isinstance(x, Sym) and x.arr:
        return Sym(tm.uf('#sum', bound(x.t), *bfilt(x.filt)))
    return x


def np_all(x, *r, **k):
    only_axis(r, k)
    if isinstance(x, SymMask):
        return sy.all_of(x)
    if isinstance(x, (SVec, list, tuple)):
        return all(bool(e) for e in x)
    return bool(x)


def np_any(x, *r, **k):
    only_axis(r, k)
    if isinstance(x, SymMask):
        return sy.any_of(x)
    if isinstance(x, (SVec, list, tuple)):
        return any(bool(e) for e in x)
    return bool(x)


def _classify(x, f):
    if isinstance(x, (SVec, list, tuple)):
        return SVec([_classify(e, f) for e in x])
    s = num(x)
    v = f(s.t)
    return SymMask(tm.TRUE if v else tm.FALSE, s.filt) if s.arr else v


def _infinite(t):
    return bool([a for a in tm.atoms_of(t) if a is tm.INF])


def np_isfinite(x):
    return _classify(x, lambda t: t is not tm.NAN and not _infinite(t))


def np_isnan(x):
    return _classify(x, lambda t: t is tm.NAN)


def np_isinf(x):
    return _classify(x, lambda t: t is not tm.NAN and _infinite(t))


# ------------------------------------------------------------------ arrays

class EvMat:
    """y_events[key]: one row of state variables per event."""

    def __init__(self, cols):
        self.cols = cols            # list of Sym arrays with the event selection

    @property
    def size(self):
        s = self.cols[0].size
        return s * len(self.cols)

    @property
    def shape(self):
        return (self.cols[0].size, len(self.cols))

    @property
    def T(self):
        return SVec(self.cols)

    @property
    def ndim(self):
        return 2

    def __len__(self):
        raise Unsupported('len() of events')

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 2:
            a, b = key
            if a == slice(None) or a is Ellipsis:
                return self.cols[int(b)] if not isinstance(b, slice) else EvMat(self.cols[b])
            if b == slice(None) or b is Ellipsis:
                return SVec([c[a] for c in self.cols])
            return self.cols[int(b)][a]
        return SVec([c[key] for c in self.cols])


class ArgIdx:
    """np.argwhere(mask): the indices at which the mask holds."""

    def __init__(self, mask):
        self.mask = mask

    def ravel(self):
        return self
    flatten = ravel
    squeeze = ravel

    @property
    def size(self):
        return Sym(tm.uf('#count', bound(self.mask.t), *bfilt(self.mask.filt)))

    @property
    def shape(self):
        return (self.size,)

    def __getitem__(self, key):
        if isinstance(key, tuple):
            key = key[0]
        if isinstance(key, SymMask):
            if self.mask.filt or set(key.filt) != set(sy._addfilt((), self.mask)):
                raise Unsupported('selection of indices')
            return np_argwhere(SymMask(tm.band(self.mask.t, key.t)))
        if key == Ellipsis or key == slice(None):
            return self
        if key in (slice(None, 1), slice(0, 1), slice(-1, None)):
            try:
                return SVec([self[-1 if key.start == -1 else 0]])
            except IndexError:
                return SVec([])
        if not isinstance(key, int) or key not in (0, -1):
            raise Unsupported('argwhere()[%r]' % (key,))
        if self.mask.filt:
            raise Unsupported('argwhere of a selection')
        filt = sy._addfilt((), self.mask)
        if filt:        # the position of the first or last selected element, as in array[mask][key]
            t = tm.uf('#sel', tm.num(key), *bfilt(filt))
        else:
            t = tm.uf('#argfirst' if key == 0 else '#arglast', bound(self.mask.t))
        ex = sy.current
        none = tm.cmp('<=', self.size.t, tm.ZERO)
        at = lambda j: tm.subst(self.mask.t, {GEN: j})
        if branch(none):
            raise IndexError('index 0 is out of bounds for axis 0 with size 0')
        ex.assume(at(t))
        ex.assume(tm.cmp('<', tm.ZERO, self.size.t))
        ex.assume(tm.cmp('<=', tm.ZERO, t))
        ex.assume(tm.cmp('<=', tm.add(t, tm.ONE), tm.uf('#size', tm.ZERO)))
        record.everywhere(lambda j: tm.bor(tm.bnot(at(j)), tm.cmp('<=', t, j) if key == 0 else tm.cmp('<=', j, t)), True)
        record.index(t)
        return OneIdx(t)


    def _end(self, key):
        try:
            return self[key]
        except IndexError:
            raise ValueError('zero-size array to reduction operation which has no identity')

    def min(self):
        return self._end(0)

    def max(self):
        return self._end(-1)


class OneIdx(Sym):
    """A row of argwhere: the index, also under [0]."""
    __slots__ = ()
    __hash__ = Sym.__hash__

    def __getitem__(self, key):
        if key == 0:
            return Sym(self.t)
        raise IndexError(key)


def np_argwhere(m):
    if not isinstance(m, SymMask):
        raise Unsupported('argwhere of %r' % (m,))
    a = ArgIdx(m)
    if not m.filt:
        n = a.size.t
        sy.current.assume(tm.cmp('<=', tm.ZERO, n))
        record.everywhere(lambda j: tm.bor(tm.bnot(tm.subst(m.t, {GEN: j})), tm.cmp('<=', tm.ONE, n)))
    return a


def np_argmax(m):
    """Index of the first element that holds (zero if none does)."""
    if not isinstance(m, SymMask):
        raise Unsupported('argmax')
    a = np_argwhere(m)
    if branch(tm.cmp('<=', a.size.t, tm.ZERO)):
        return 0
    return a[0]


class UniqIdx:
    def __init__(self, t):
        self.t = t


class Arange:
    def __init__(self, n):
        self.n = n


def unshifted(t):
    """The summands of t which depend on the element (which elements are unique does not depend on the others)."""
    return tm.add(*[p for p in (t.a if t.k == 'add' else (t,)) if depends(p)])


def depends(t):
    return any(a is GEN for a in tm.atoms_of(t)) if t is not GEN else True


def np_interp(q, x, y, *a, **k):
    if a or k:
        raise Unsupported('interp() with bounds')
    return interp1d(x, y)(q)


def np_unique(x, return_index=False, **kw):
    if not (isinstance(x, Sym) and x.arr) or kw:
        raise Unsupported('unique')
    f = tm.ufb('#uniq', bound(unshifted(x.t)), *bfilt(x.filt), GEN)
    u = Sym(tm.uf('#sorted', bound(x.t), *bfilt(x.filt), GEN), True, (f,))
    return (u, UniqIdx(f)) if return_index else u


def np_arange(*a, **k):
    if len(a) == 1 and isinstance(a[0], Sym):
        return Arange(a[0])
    return SVec([int(i) for i in range(*[int(x) for x in a])])


def np_isin(a, b, **k):
    if isinstance(a, Arange) and isinstance(b, UniqIdx):
        return SymMask(b.t)
    raise Unsupported('isin')


def is_int(e):
    return isinstance(e, (int, _np.integer)) and not isinstance(e, bool)


def np_array(x, dtype=None, *a, **k):
    if isinstance(x, _np.ndarray):
        x = SVec([lift_item(e) for e in x], x.dtype.kind in 'iu') if x.ndim else x.item()
    elif isinstance(x, (list, tuple)):
        if len(x) and all(isinstance(e, (list, tuple)) for e in x):
            return SVec([np_array(e, dtype) for e in x])
        collected = isinstance(x, list) and len(x) == 2 and sy.current.looped
        x = SVec(x, len(x) > 0 and all(is_int(e) for e in x))
        x.looped = collected
    if isinstance(x, (SVec, Sym, SymMask)):
        return cast(x, dtype)
    return x


def np_asarray(x, dtype=None, *a, **k):
    if isinstance(x, (SVec, Sym, SymMask)):
        kind = kind_of(dtype)
        if kind is None or kind == ('bool' if isinstance(x, SymMask) else 'int' if x.integer else 'float'):
            return x
    return np_array(x, dtype)


def lift_item(e):
    return Sym(lift(e)) if lift(e) is not None else e


def np_atleast_1d(x):
    if is_array(x):
        return x
    return SVec([x])


def filled(n, v, dtype=None):
    if isinstance(n, tuple) and len(n) == 1:
        n = n[0]
    if isinstance(n, tuple):
        raise Unsupported('matrix of given shape')
    if isinstance(n, Sym) and n.t.k != 'num':
        size = tm.uf('#size', tm.ZERO)
        if n.t is not size and not branch(tm.cmp('==', n.t, size)):
            raise Unsupported('array of another length')
        kind = kind_of(dtype)
        if kind == 'bool':
            return SymMask(tm.TRUE if v else tm.FALSE)
        return cast(Sym(num(v).t, True), dtype)
    return cast(SVec([v for _ in range(int(n))]), dtype)


def np_zeros(n, dtype=None, **k):
    return filled(n, 0, dtype)


def np_ones(n, dtype=None, **k):
    return filled(n, 1, dtype)


def np_full(n, v, dtype=None, **k):
    return filled(n, v, dtype if dtype is not None else bool if isinstance(v, bool) else int if is_int(v) else None)


def like(v):
    def f(x, *a, **k):
        w, a = (a[0], a[1:]) if v is None else (v, a)
        dtype = k.get('dtype', a[0] if a else None)
        if isinstance(x, (list, tuple)):
            x = np_array(x)
        if isinstance(x, SVec):
            integer = kind_of(dtype) == 'int' or dtype is None and x.integer
            return SVec([(int(w) if integer and w == w else w) if not isinstance(e, Sym) else f(e, *([w] if v is None else []), **k) for e in x], integer)
        if isinstance(x, (Sym, SymMask)) and (isinstance(x, SymMask) or x.arr):
            kind = kind_of(dtype) or ('bool' if isinstance(x, SymMask) else 'int' if x.integer else 'float')
            if kind == 'bool':
                return SymMask(tm.TRUE if w else tm.FALSE, x.filt)
            return cast(Sym(num(w).t, True, x.filt), kind)
        return w
    return f


np_full_like, np_zeros_like, np_ones_like = like(None), like(0), like(1)


def np_stack(seq, *a, **k):
    return SVec(list(seq)).copy()


def np_concatenate(seq, *a, **k):
    out = []
    for s in seq:
        if not isinstance(s, (SVec, list, tuple)):
            raise Unsupported('concatenation of symbolic arrays')
        out += list(s)
    return SVec(out)


def np_size(x, *a):
    if hasattr(x, 'size'):
        return x.size
    if isinstance(x, (list, tuple)):
        return len(x)
    return 1


def np_linspace(start, stop, num=50, endpoint=True, dtype=None):
    if endpoint is not True:
        raise Unsupported('linspace without its end point')
    a, b, n = [lift_item(x) for x in (start, stop, num)]
    t = tm.add(a.t, tm.mul(tm.sub(b.t, a.t), GEN, tm.power(tm.sub(n.t, tm.ONE), tm.MONE)))
    return Sym(t, True, (tm.ufb('#grid', n.t),))


def np_logspace(start, stop, num=50, endpoint=True, base=10):
    l = np_linspace(start, stop, num, endpoint)
    return wrap(tm.power(lift_item(base).t, l.t), l)


def np_geomspace(start, stop, num=50, endpoint=True):
    l = np_linspace(np.log(start), np.log(stop), num, endpoint)
    return wrap(tm.fn('exp', l.t), l)


def np_allclose(a, b, **k):
    raise Unsupported('allclose')


def np_polyval(p, x):
    y = x * 0
    for c in p:
        y = y * x + c
    return y


def np_clip(x, lo=None, hi=None, **k):
    lo, hi = k.pop('min', lo), k.pop('max', hi)
    if lo is not None:
        x = _fns['maximum'](x, lo)
    return x if hi is None else _fns['minimum'](x, hi)


def np_prod(x, *r, **k):
    if not isinstance(x, (SVec, list, tuple)):
        raise Unsupported('product over an array')
    s = 1
    for e in x:
        s = s * e
    return s


def np_dot(a, b):
    if isinstance(a, (SVec, list, tuple)) and isinstance(b, (SVec, list, tuple)) and not isinstance(a[0], (SVec, list, tuple)):
        return np_sum([x * y for x, y in zip(a, b)])
    raise Unsupported('matrix product')


def np_mean(x, *r, **k):
    if not isinstance(x, (SVec, list, tuple)):
        raise Unsupported('mean over an array')
    return np_sum(x) / Fraction(len(x))


def np_select(conds, values, default=0):
    out = default
    for c, v in reversed(list(zip(conds, values))):
        out = np_where(c, v, out)
    return out


def np_diff(x, *r, **k):
    if isinstance(x, (SVec, list, tuple)) and not r and not k:
        return SVec([b - a for a, b in zip(x, list(x)[1:])])
    raise Unsupported('diff')


def np_polyval_up(x, c):
    return np_polyval(list(c)[::-1], x)


class Polynomial:
    def __init__(self, coef):
        self.coef = SVec(list(coef))

    def __call__(self, x):
        return np_polyval_up(x, self.coef)


def np_ptp(x):
    return np_max(x) - np_min(x)


def np_extract(c, x):
    return x[c]


def np_piecewise(x, conds, values):
    values = [v(x) if callable(v) else v for v in values]
    if len(values) not in (len(conds), len(conds) + 1):
        raise Unsupported('piecewise')
    return np_select(conds, values[:len(conds)], values[-1] if len(values) > len(conds) else 0)


def np_logaddexp(a, b):
    return np.log(np.exp(a) + np.exp(b))


def np_heaviside(x, h):
    return np_where(num(x) < 0, 0, np_where(num(x) > 0, 1, h)) if not isinstance(x, (SVec, list, tuple)) else \
        SVec([np_heaviside(e, h) for e in x])


def np_isclose(a, b, **k):
    raise Unsupported('isclose')


def np_take(x, j, *r, **k):
    if r or k:
        raise Unsupported('options of take')
    return x[j]


def np_flip(x, *r, **k):
    if isinstance(x, (SVec, list, tuple)):
        return SVec(list(x)[::-1])
    raise Unsupported('flip')


def np_append(a, b, *r, **k):
    return np_concatenate([a, b if isinstance(b, (SVec, list, tuple)) else [b]])


def _missing(name):
    def get(attr):
        if attr.startswith('__'):
            raise AttributeError(attr)
        raise Unsupported('%s.%s' % (name, attr))
    return get


class errstate:
    def __init__(self, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


np = types.ModuleType('numpy')
_fns = dict(
    abs=np_abs, absolute=np_abs, fabs=np_abs, sign=np_sign, sqrt=np_sqrt, exp=np_exp, log=_unary('log'),
    sin=_unary('sin'), cos=_unary('cos'), tan=_unary('tan'), sinh=_unary('sinh'), cosh=_unary('cosh'),
    tanh=_unary('tanh'), arctan=_unary('arctan'), arcsin=_unary('arcsin'), arccos=_unary('arccos'),
    arcsinh=_unary('arcsinh'), arccosh=_unary('arccosh'), arctanh=_unary('arctanh'), floor=np_floor,
    log10=np_log_base(10), log2=np_log_base(2), hypot=np_hypot, real=np_real, imag=np_imag,
    conj=np_conj, conjugate=np_conj, square=_lift1(lambda s: s * s), reciprocal=_lift1(lambda s: 1 / s),
    cbrt=_lift1(lambda s: s ** Fraction(1, 3)), exp2=_lift1(lambda s: wrap(tm.power(tm.num(2), s.t), s)),
    log1p=_lift1(lambda s: wrap(tm.fn('log', tm.add(tm.ONE, s.t)), s)),
    expm1=_lift1(lambda s: wrap(tm.sub(tm.fn('exp', s.t), tm.ONE), s)),
    real_if_close=lambda x, *a, **k: x, negative=lambda x: -x, positive=lambda x: x,
    power=_two(py_pow), float_power=_two(py_pow), divide=_two(py_div), true_divide=_two(py_div),
    multiply=_two(lambda a, b: a * b), add=_two(lambda a, b: a + b), subtract=_two(lambda a, b: a - b),
    maximum=_two(np_max2), minimum=_two(np_min2), where=np_where,
    less=_two(lambda a, b: num(a) < b), less_equal=_two(lambda a, b: num(a) <= b),
    greater=_two(lambda a, b: num(a) > b), greater_equal=_two(lambda a, b: num(a) >= b),
    equal=_two(lambda a, b: num(a) == b), not_equal=_two(lambda a, b: num(a) != b),
    logical_and=_two(lambda a, b: a & b), logical_or=_two(lambda a, b: a | b),
    logical_not=lambda a: ~a if isinstance(a, (SymMask, SymBool)) else not a,
    min=np_min, max=np_max, amin=np_min, amax=np_max, nanmin=np_min, nanmax=np_max,
    median=np_median, nanmedian=np_median, sum=np_sum, all=np_all, any=np_any,
    isfinite=np_isfinite, isnan=np_isnan, isinf=np_isinf,
    argmax=np_argmax, argwhere=np_argwhere, flatnonzero=np_argwhere, nonzero=lambda m: (np_argwhere(m),),
    count_nonzero=lambda m: m.sum(),
    interp=np_interp, unique=np_unique, arange=np_arange, isin=np_isin, array=np_array, asarray=np_asarray,
    asanyarray=np_asarray, copy=np_array, atleast_1d=np_atleast_1d, zeros=np_zeros, ones=np_ones,
    empty=np_zeros, full=np_full, full_like=np_full_like, zeros_like=np_zeros_like,
    empty_like=np_zeros_like, ones_like=np_ones_like, vstack=np_stack, stack=np_stack,
    row_stack=np_stack, concatenate=np_concatenate, size=np_size, linspace=np_linspace,
    logspace=np_logspace, geomspace=np_geomspace, ravel=lambda x: x, squeeze=lambda x: x,
    ndim=lambda x: getattr(x, 'ndim', 0), shape=lambda x: getattr(x, 'shape', ()),
    isscalar=lambda x: not is_array(x), allclose=np_allclose, errstate=errstate,
    deg2rad=_lift1(lambda s: s * PI / 180), polyval=np_polyval, clip=np_clip, prod=np_prod, dot=np_dot, mean=np_mean,
    average=np_mean, select=np_select, diff=np_diff, flip=np_flip, append=np_append, hstack=np_concatenate,
    fmax=_two(np_max2), fmin=_two(np_min2), rad2deg=_lift1(lambda s: s * 180 / PI),
    logical_xor=_two(lambda a, b: a & ~b | ~a & b),
    ptp=np_ptp, extract=np_extract, compress=np_extract, piecewise=np_piecewise, logaddexp=np_logaddexp,
    heaviside=np_heaviside, take=np_take, isclose=np_isclose, array_equal=np_isclose,
    nansum=np_sum, round=lambda x, *a, **k: _missing('numpy')('round'),
)
for _k, _v in _fns.items():
    setattr(np, _k, _v)
np.polynomial = types.ModuleType('numpy.polynomial')
np.polynomial.Polynomial = Polynomial
np.polynomial.polynomial = types.ModuleType('numpy.polynomial.polynomial')
np.polynomial.polynomial.polyval = np_polyval_up
np.polynomial.polynomial.Polynomial = Polynomial
PI = Sym(tm.PI)
np.pi = PI
np.e = Sym(tm.fn('exp', tm.ONE))
np.euler_gamma = Sym(tm.EULER)
np.nan = Sym(tm.NAN)
np.NaN = np.nan
np.inf = Sym(tm.INF)
np.ndarray = NdArray
np.newaxis = None
np.float64 = lambda x=0: x
np.float64.stands_for = float
np.bool_ = bool
np.number = Sym
np.complex128 = np.cdouble = lambda x=0: x
np.complex128.stands_for = complex
np.double = np.float64
np.integer = int
np.floating = Sym


class finfo:
    def __init__(self, *a):
        self.eps = Fraction(2) ** -52
        self.tiny = Fraction(2) ** -1022
        self.max = Fraction(2) ** 1024


np.finfo = finfo

# ------------------------------------------------------------------ math

math = types.ModuleType('math')
for _k in ('sqrt', 'exp', 'log10', 'log2', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'hypot', 'floor',
           'log1p', 'expm1', 'fabs'):
    setattr(math, _k, _fns[_k])
math.log = lambda x, b=None: np.log(x) if b is None else np.log(x) / np.log(b)
for _a, _b in (('atan', 'arctan'), ('asin', 'arcsin'), ('acos', 'arccos'), ('asinh', 'arcsinh'),
               ('acosh', 'arccosh'), ('atanh', 'arctanh')):
    setattr(math, _a, _fns[_b])
math.pow = py_pow
math.cbrt, math.prod, math.fsum = _fns['cbrt'], np_prod, np_sum
math.copysign = lambda a, b: np_abs(a) * np_sign(b)
math.degrees, math.radians = _fns['rad2deg'], _fns['deg2rad']
math.isfinite, math.isnan, math.isinf = np_isfinite, np_isnan, np_isinf
math.pi, math.e, math.nan, math.inf = PI, np.e, np.nan, np.inf

# ------------------------------------------------------------------ scipy

scipy = types.ModuleType('scipy')
special = types.ModuleType('scipy.special')
special.zeta = lambda s, *a: _unary('zeta')(s)


def _lambertw(x, k=0, **kw):
    s = num(x)
    if int(k) != -1:
        raise Unsupported('lambertw branch %r' % (k,))
    return wrap(tm.fn('lambertw', s.t, -1), s)


special.lambertw = _lambertw

constants = types.ModuleType('scipy.constants')
CONST_VALUES = {}
for _n, _v in (('c', 299792458), ('hbar', None), ('G', None), ('k', None), ('e', None), ('parsec', None)):
    import scipy.constants as _sc
    setattr(constants, _n, Sym(tm.sym('const_' + _n)))
    CONST_VALUES['const_' + _n] = getattr(_sc, _n)
constants.pi = PI
constants.h = Sym(tm.mul(tm.num(2), tm.PI, tm.sym('const_hbar')))
constants.speed_of_light = constants.c
constants.elementary_charge = constants.e
constants.Boltzmann = constants.k
constants.gravitational_constant = constants.G
for _n in ('yotta', 'zetta', 'exa', 'peta', 'tera', 'giga', 'mega', 'kilo', 'hecto', 'deka', 'deci',
           'centi', 'milli', 'micro', 'nano'):
    setattr(constants, _n, Fraction(repr(getattr(_sc, _n))))


class Bunch(dict):
    """OdeResult / RootResults: dictionary with attribute access."""

    def __getattr__(self, name):
        try:
            return self[name]
        except KeyError:
            raise AttributeError(name)
    __setattr__ = dict.__setitem__

    def __delattr__(self, name):
        try:
            del self[name]
        except KeyError:
            raise AttributeError(name)

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


interpolate = types.ModuleType('scipy.interpolate')


def pair_filt(x, y):
    fx = x.filt if isinstance(x, Sym) else ()
    fy = y.filt if isinstance(y, Sym) else ()
    if set(fx) != set(fy):
        raise Unsupported('interpolation table from different selections')
    return fx


class interp1d:
    """Contract: an interpolating function of the table; passes through its nodes."""

    def __init__(self, x, y, kind='linear', **kw):
        self.x, self.y, self.kw = np_array(x), np_array(y), dict(kw, kind=kind)
        self.filt = pair_filt(x, y)
        record.calls.append(('interp1d', self))

    def tag(self):
        kw = {k: v for k, v in self.kw.items() if (k, v) != ('kind', 'linear')}
        return '#interp' + (repr(sorted(kw.items(), key=lambda z: z[0])) if kw else '')

    def __call__(self, q):
        s = num(q)
        y = num(self.y).t
        if bound(y) is y and not self.kw.get('fill_value') and not s.arr:
            return Sym(y)          # a table of one value
        return wrap(tm.uf(self.tag(), bound(num(self.x).t), bound(num(self.y).t), *bfilt(self.filt), s.t), s)


class InterpolatedUnivariateSpline:
    def __init__(self, x, y, w=None, bbox=None, k=3, ext=0, **kw):
        self.x, self.y, self.k, self.ext = np_array(x), np_array(y), k, ext
        self.filt = pair_filt(x, y)
        record.calls.append(('spline', self))
        self.tag = '#spline[%s,%s]' % (k, {0: 'extrapolate', 1: 'zeros', 2: 'raise', 3: 'const'}.get(ext, ext))

    def _val(self, q, n):
        s = num(q)
        args = [bound(num(self.x).t), bound(num(self.y).t)] + bfilt(self.filt)
        return wrap(tm.uf(self.tag, *args, s.t, order=(0,) * len(args) + (n,)), s)

    def __call__(self, q, nu=0, ext=None):
        return self._val(q, int(nu))

    def derivatives(self, q):
        return SVec([self._val(q, n) for n in range(int(self.k) + 1)])

    def derivative(self, n=1):
        return lambda q: self._val(q, n)


interpolate.interp1d = interp1d
interpolate.InterpolatedUnivariateSpline = InterpolatedUnivariateSpline

optimize = types.ModuleType('scipy.optimize')


def root_scalar(f, args=(), method=None, bracket=None, x0=None, **kw):
    """Contract: returns a zero of f inside the bracket; the last evaluation of f is anywhere."""
    if 'root_scalar' in record.hooks:
        return record.hooks['root_scalar'](f, args=args, method=method, bracket=bracket, x0=x0, **kw)
    r = tm.sym('#' + record.fresh('root'))
    ex = sy.current
    info = Bunch(bracket=bracket, f=f, root=Sym(r))
    record.calls.append(('root_scalar', info))
    if bracket is not None:
        a, b = num(bracket[0]).t, num(bracket[1]).t
        info.lo, info.hi = a, b
        ex.assume(tm.bor(tm.band(tm.cmp('<=', a, r), tm.cmp('<=', r, b)),
                         tm.band(tm.cmp('<=', b, r), tm.cmp('<=', r, a)))
                  if not record.hooks.get('ordered_brackets', True) else
                  tm.band(tm.cmp('<=', a, r), tm.cmp('<=', r, b)))
    res = num(f(Sym(r), *args)).t
    info.residual = res
    ex.assume(tm.cmp('==', res, tm.ZERO))
    # the same function on the same bracket has the same root
    for name, old in record.calls:
        if name == 'root_scalar' and old is not info and bracket is not None and old.get('lo') is a and old.get('hi') is b \
                and tm.subst(old.residual, {old.root.t: r}) is res:
            ex.assume(tm.cmp('==', r, old.root.t))
            break
    if record.hooks.get('scramble_root', False):
        o = tm.sym('#' + record.fresh('other'))
        if bracket is not None:
            ex.assume(tm.cmp('<=', a, o))
            ex.assume(tm.cmp('<=', o, b))
        f(Sym(o), *args)
    return Bunch(root=Sym(r), converged=True, flag='converged', iterations=1, function_calls=1)


def brentq(f, a, b, args=(), **kw):
    return root_scalar(f, args=args, bracket=(a, b)).root


optimize.root_scalar = root_scalar
optimize.brentq = brentq
optimize.brenth = brentq

integrate = types.ModuleType('scipy.integrate')


def quad(func, a, b, args=(), **kw):
    q = tm.sym('#q')
    body = num(func(Sym(q), *args)).t
    a, b = num(a), num(b)
    v = tm.uf('#quad', body, a.t, b.t)
    record.calls.append(('quad', Bunch(body=body, a=a, b=b)))
    return Sym(v), Sym(tm.uf('#quaderr', body, a.t, b.t))


def solve_ivp(fun, t_span, y0, *args, **kw):
    h = record.hooks.get('solve_ivp')
    record.calls.append(('solve_ivp', Bunch(fun=fun, t_span=t_span, y0=y0, args=args, kwargs=kw)))
    if h is not None:
        return h(fun, t_span, y0, *args, **kw)
    return Bunch(t=SVec([0]), y=SVec([SVec([v]) for v in y0]), t_events=None, y_events=None,
                 success=True, status=0)


integrate.quad = quad
integrate.solve_ivp = solve_ivp
for _m in (special, constants, interpolate, optimize, integrate):
    setattr(scipy, _m.__name__.split('.')[1], _m)

# ------------------------------------------------------------------ pyoscode, cobaya, warnings

pyoscode = types.ModuleType('pyoscode')


def oscode_solve(**kw):
    record.calls.append(('pyoscode', Bunch(kw)))
    h = record.hooks.get('pyoscode')
    if h is None:
        raise Unsupported('pyoscode.solve without contract')
    return h(**kw)


pyoscode.solve = oscode_solve

cobaya = types.ModuleType('cobaya')
cobaya_theory = types.ModuleType('cobaya.theory')


class Theory:
    """Contract: base class that stores nothing of interest."""

    def initialize(self):
        pass

    def mpi_info(self, *a, **k):
        pass


cobaya_theory.Theory = Theory
cobaya.theory = cobaya_theory

warnings = types.ModuleType('warnings')


def warn(message, category=None, stacklevel=1, source=None):
    if isinstance(message, Warning):
        category = type(message)
    record.warnings.append((category or UserWarning, str(message)))


warnings.warn = warn
warnings.filterwarnings = lambda *a, **k: None
warnings.simplefilter = lambda *a, **k: None


class catch_warnings:
    def __init__(self, *a, **k): pass
    def __enter__(self): return []
    def __exit__(self, *a): return False


warnings.catch_warnings = catch_warnings

for _m in (np, math, special, constants, interpolate, optimize, integrate):
    _m.__getattr__ = _missing(_m.__name__)

MODULES = {
    'numpy': np, 'numpy.polynomial': np.polynomial, 'numpy.polynomial.polynomial': np.polynomial.polynomial, 'math': math, 'scipy': scipy, 'scipy.special': special, 'scipy.constants': constants,
    'scipy.interpolate': interpolate, 'scipy.optimize': optimize, 'scipy.integrate': integrate,
    'pyoscode': pyoscode, 'cobaya': cobaya, 'cobaya.theory': cobaya_theory, 'warnings': warnings,
}
