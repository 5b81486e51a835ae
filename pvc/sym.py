"""Symbolic values that flow through the real code, and the path explorer behind `bool()`."""
from fractions import Fraction
import numbers
import numpy as _np
from . import term as tm
from .term import T


class Unsupported(Exception):
    """The engine cannot represent what the code does."""


class PathAbort(BaseException):
    """Current path is infeasible or over budget."""


GEN = tm.sym('#i')       # the generic array index
ITERATIONS = [tm.sym('#it1'), tm.sym('#it2')]   # the two arbitrary iterations that stand for all of a loop
BND = tm.sym('#b')       # the same index where it is bound (sums, minima, tables, selections)


def bound(t):
    return tm.subst(t, {GEN: BND}) if type(t) is T else t


def bfilt(filt):
    return sorted((bound(f) for f in filt), key=lambda x: x.id)


def isnan(t):
    return t is tm.NAN


class Explorer:
    """Depth-first enumeration of the decisions taken by symbolic branches."""

    def __init__(self, decide=None, max_paths=4000):
        self.script = []
        self.decide = decide          # callable(facts, cond) -> True/False/None
        self.max_paths = max_paths
        self.reset()

    def reset(self):
        self.trace = []
        self.facts = []
        self.pos = 0
        self.looped = False           # a loop went through two arbitrary elements of an array

    def assume(self, cond):
        if cond is tm.TRUE:
            return
        if cond is tm.FALSE:
            raise PathAbort()
        self.facts.append(cond)

    def branch(self, cond):
        if cond is tm.TRUE:
            return True
        if cond is tm.FALSE:
            return False
        if cond in self.facts:
            return True
        ncond = tm.bnot(cond)
        if ncond in self.facts:
            return False
        if self.pos < len(self.script):
            d, _ = self.script[self.pos]
            forced = self.script[self.pos][1]
        else:
            v = self.decide(self.facts, cond) if self.decide else None
            if v is None:
                d, forced = True, False
            else:
                d, forced = v, True
            self.script.append((d, forced))
        self.pos += 1
        self.facts.append(cond if d else ncond)
        taken = cond if d else ncond
        if taken.k == 'ufb' and taken.a[0] == '#all':
            inst = [tm.subst(x, {BND: GEN}) for x in taken.a[1:]]
            self.facts.append(tm.bor(inst[0], *[tm.bnot(f) for f in inst[1:]]))
        return d

    def next_script(self):
        """Advance to the next unexplored path; False when there is none."""
        s = self.script[:self.pos]
        while s:
            d, forced = s.pop()
            if not forced and d:
                s.append((False, True))
                self.script = s
                return True
        return False


current = None      # the active Explorer


def set_explorer(e):
    global current
    current = e


def lift(x):
    """Python/numpy number or Sym to T (None when it is not a number)."""
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, T):
        return x
    if isinstance(x, SymBool):
        return tm.num(1) if bool(x) else tm.num(0)
    if isinstance(x, Fraction):
        return tm.num(x)
    if isinstance(x, bool) or isinstance(x, _np.bool_):
        return tm.num(int(x))
    if isinstance(x, (int, _np.integer)):
        return tm.num(int(x))
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x != x:
            return tm.NAN
        if x in (float('inf'), float('-inf')):
            return tm.INF if x > 0 else tm.neg(tm.INF)
        return tm.num(rationalise(x))
    if isinstance(x, (complex, _np.complexfloating)):
        return tm.add(tm.num(rationalise(float(x.real))),
                      tm.mul(tm.IMAG, tm.num(rationalise(float(x.imag)))))
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


def rationalise(x):
    """The decimal number a programmer wrote for this float (shortest representation)."""
    f = Fraction(repr(x))
    g = f.limit_denominator(1000)
    if g != f and abs(float(g) - x) <= 1e-16 * abs(x):
        return g
    return f


def _bin(op):
    def f(self, other):
        if isinstance(other, SVec):
            return NotImplemented
        o = lift(other)
        if o is None:
            if isinstance(other, _np.ndarray):
                return _map_nd(lambda e: op(self.t, lift(e)), other, self)
            return NotImplemented
        if self.t is tm.NAN or o is tm.NAN:
            return wrap(tm.NAN, self, other)
        return wrap(op(self.t, o), self, other)

    def r(self, other):
        o = lift(other)
        if o is None:
            if isinstance(other, _np.ndarray):
                return _map_nd(lambda e: op(lift(e), self.t), other, self)
            return NotImplemented
        if self.t is tm.NAN or o is tm.NAN:
            return wrap(tm.NAN, self, other)
        return wrap(op(o, self.t), self, other)
    return f, r


def _map_nd(f, arr, s):
    out = _np.empty(arr.shape, dtype=object)
    for i, e in _np.ndenumerate(arr):
        out[i] = wrap(f(e), s)
    return SVec(list(out)) if arr.ndim == 1 else out


def wrap(t, *operands):
    """Wrap a term with the array character of its operands."""
    arr, filt = False, ()
    for o in operands:
        if isinstance(o, Sym) and o.arr:
            if arr and set(o.filt) != set(filt):
                raise Unsupported('arrays of different selections combined')
            arr, filt = True, o.filt
    return Sym(t, arr, filt)


def _cmp(op):
    def f(self, other):
        o = lift(other)
        if o is None:
            if op == '==':
                return False
            if op == '!=':
                return True
            return NotImplemented
        t = tm.cmp(op, self.t, o)
        if self.arr or (isinstance(other, Sym) and other.arr):
            filt = self.filt if self.arr else other.filt
            return SymMask(t, filt)
        return SymBool(t)
    return f


class SymBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        if self.t is tm.TRUE:
            return True
        if self.t is tm.FALSE:
            return False
        if current is None:
            raise Unsupported('branch outside of exploration')
        return current.branch(self.t)

    def __and__(self, o):
        return SymBool(tm.band(self.t, boolterm(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(tm.bor(self.t, boolterm(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(tm.bnot(self.t))

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def _num(self):
        return int(bool(self))

    def __add__(self, o): return self._num() + o
    __radd__ = __add__
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return o - self._num()
    def __mul__(self, o): return self._num() * o
    __rmul__ = __mul__

    def all(self): return self
    def any(self): return self

    def __repr__(self):
        return 'SymBool(%s)' % tm.show(self.t)


def boolterm(o):
    if isinstance(o, (SymBool, SymMask)):
        return o.t
    if isinstance(o, T):
        return o
    return tm.TRUE if o else tm.FALSE


class SymMask:
    """Elementwise boolean array, given by its truth value at the generic index."""

    def __init__(self, t, filt=()):
        self.t = t
        self.filt = filt

    def __and__(self, o):
        return SymMask(tm.band(self.t, boolterm(o)), self.filt)
    __rand__ = __and__

    def __or__(self, o):
        return SymMask(tm.bor(self.t, boolterm(o)), self.filt)
    __ror__ = __or__

    def __mul__(self, o):
        return self & o
    __rmul__ = __mul__

    def __invert__(self):
        return SymMask(tm.bnot(self.t), self.filt)

    def __iand__(self, o):
        self.t = tm.band(self.t, boolterm(o))
        return self

    def __ior__(self, o):
        self.t = tm.bor(self.t, boolterm(o))
        return self

    def copy(self):
        return SymMask(self.t, self.filt)

    def __setitem__(self, key, value):
        c = where_written(self, key)
        v = boolterm(value)
        self.t = tm.bor(tm.band(c, v), tm.band(tm.bnot(c), self.t))

    def __getitem__(self, key):
        key = as_mask(key)
        if isinstance(key, SymMask):
            return SymMask(self.t, _addfilt(self.filt, key))
        idx = index_term(key)
        if self.filt:
            idx = tm.uf('#sel', idx, *bfilt(self.filt))
        return SymBool(tm.subst(self.t, {GEN: idx}))

    def __bool__(self):
        if not self.filt:
            raise Unsupported('truth value of an array')
        n = tm.uf('#size', tm.ZERO, *bfilt(self.filt))
        if bool(SymBool(tm.cmp('==', n, tm.ONE))):
            return bool(self[0])
        raise ValueError('The truth value of an empty array or of one with more than one element is ambiguous.')

    def all(self):
        return all_of(self)

    def any(self):
        return any_of(self)

    def sum(self):
        return Sym(tm.uf('#count', bound(self.t), *bfilt(self.filt)))

    @property
    def size(self):
        return Sym(tm.uf('#size', tm.ZERO))


def as_mask(key):
    """The indices where a mask holds, in ascending order, select what the mask selects."""
    from .shim import ArgIdx
    if isinstance(key, ArgIdx):
        if key.mask.filt:
            raise Unsupported('indices of a selection')
        return key.mask
    return key


def where_written(arr, key):
    """The condition on the generic index under which arr[key] = ... writes it."""
    from .shim import UniqIdx, ArgIdx
    if arr.filt:
        raise Unsupported('writing into a selection')
    if isinstance(key, tuple) and len(key) == 1:
        key = key[0]
    if key is Ellipsis or isinstance(key, slice) and key == slice(None):
        return tm.TRUE
    if isinstance(key, SymMask):
        if key.filt:
            raise Unsupported('mask of a selection')
        return key.t
    if isinstance(key, UniqIdx):
        return key.t
    if isinstance(key, ArgIdx) and not key.mask.filt:
        return key.mask.t
    idx = index_term(key)
    if idx.k == 'num' and idx.a[0] < 0:
        idx = tm.add(tm.uf('#size', tm.ZERO), idx)
    return tm.cmp('==', GEN, idx)


def all_of(m):
    if m.t is tm.TRUE:
        return True
    return SymBool(tm.ufb('#all', bound(m.t), *bfilt(m.filt)))


def any_of(m):
    return SymBool(tm.bnot(tm.ufb('#all', bound(tm.bnot(m.t)), *bfilt(m.filt))))


def _addfilt(filt, mask):
    parts = list(mask.t.a) if mask.t.k == 'and' else [mask.t]
    out = set(filt)
    for p in parts:
        if p is not tm.TRUE:
            out.add(p)
    return tuple(sorted(out, key=lambda x: x.id))


def slice_element(filt, idx):
    """Position in the whole array of element idx of array[lo:hi], where it is known to exist."""
    if len(filt) != 1 or filt[0].a[0] != '#slice' or len(filt[0].a) != 3 or idx.k != 'num' or current is None:
        return None
    lo, hi = filt[0].a[1:]
    size = tm.uf('#size', tm.ZERO)
    hi = size if hi == 'end' else hi
    pos = tm.add(lo, idx) if idx.a[0] >= 0 else tm.add(hi, idx)
    known = tm.band(tm.cmp('<=', tm.ZERO, lo), tm.cmp('<=', lo, pos), tm.cmp('<=', tm.add(pos, tm.ONE), hi),
                    tm.cmp('<=', hi, size))
    return pos if known is tm.TRUE or current.decide(current.facts, known) is True else None


def truncated(t):
    """What is left of a number in an array of integers."""
    if t.k == 'num':
        return tm.num(int(t.a[0]))
    return tm.fn('trunc', t)


def cast(x, dtype):
    """A copy of x with the given type of elements (None: as they are)."""
    kind = kind_of(dtype)
    out = x.copy()
    if kind is None or isinstance(x, SymMask) and kind == 'bool':
        return out
    if isinstance(x, SVec):
        if kind == 'bool':
            raise Unsupported('cast to truth values')
        out.items = [cast(e, dtype) if isinstance(e, (Sym, SymMask, SVec)) else lift_entry(e, kind) for e in out.items]
        out.integer = kind == 'int'
        return out
    if isinstance(x, SymMask):
        return Sym(tm.ite(x.t, tm.ONE, tm.ZERO), True, x.filt)
    if kind == 'bool':
        return SymMask(tm.cmp('!=', x.t, tm.ZERO), x.filt) if x.arr else SymBool(tm.cmp('!=', x.t, tm.ZERO))
    if kind == 'int' and not x.integer:
        out.t = truncated(x.t)
    out.integer = out.arr and kind == 'int'
    return out


def lift_entry(e, kind):
    return int(e) if kind == 'int' else e


def kind_of(dtype):
    """'bool', 'int', 'float' or None; other types are not modelled."""
    if dtype is None:
        return None
    dtype = getattr(dtype, 'stands_for', dtype)
    for kind, known in (('bool', (bool, _np.bool_, 'bool')), ('int', (int, _np.int64, 'int', 'int64')),
                        ('float', (float, complex, _np.float64, _np.complex128, 'float', 'complex', 'float64', 'd'))):
        if any(dtype is k or isinstance(k, str) and isinstance(dtype, str) and dtype == k for k in known):
            return kind
    try:
        d = _np.dtype(dtype)
    except TypeError:
        raise Unsupported('elements of type %r' % (dtype,))
    kind = {'bool': 'bool', 'int64': 'int', 'float64': 'float', 'complex128': 'float'}.get(d.name)
    if kind is None:
        raise Unsupported('elements of type %r' % (dtype,))
    return kind


def index_term(key):
    if isinstance(key, Sym):
        return key.t
    if isinstance(key, (int, _np.integer)):
        return tm.num(int(key))
    raise Unsupported('array index %r' % (key,))


class Sym:
    """A real (or complex) number, or an array seen at its generic element."""
    __slots__ = ('t', 'arr', 'filt', 'view', 'integer')
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, t, arr=False, filt=()):
        self.t = t
        self.arr = arr
        self.filt = filt
        self.view = False       # part of another array, which a change in place would reach
        self.integer = False    # an array of integers: what is written into it is truncated

    __add__, __radd__ = _bin(tm.add)
    __sub__, __rsub__ = _bin(tm.sub)
    __mul__, __rmul__ = _bin(tm.mul)
    __truediv__, __rtruediv__ = _bin(tm.div)
    __pow__, __rpow__ = _bin(tm.power)
    __lt__ = _cmp('<')
    __le__ = _cmp('<=')
    __gt__ = _cmp('>')
    __ge__ = _cmp('>=')
    __eq__ = _cmp('==')
    __ne__ = _cmp('!=')

    def __hash__(self):
        return hash(self.t.id)

    def __neg__(self):
        return wrap(tm.neg(self.t), self)

    def __pos__(self):
        return self.copy()

    def _inplace(self, value):
        """An array is changed in place; a number is replaced."""
        if not self.arr or value is NotImplemented:
            return value
        if not isinstance(value, Sym) or set(value.filt) != set(self.filt):
            raise Unsupported('in-place change of an array')
        if self.view:
            raise Unsupported('in-place change of part of an array')
        if self.integer:
            raise Unsupported('in-place change of an array of integers')
        self.t = value.t
        return self

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)
    def __ipow__(self, o): return self._inplace(self ** o)

    def __setitem__(self, key, value):
        if not self.arr:
            raise TypeError('symbolic scalar does not support item assignment')
        if self.view:
            raise Unsupported('writing into part of an array')
        c = where_written(self, key)
        if isinstance(value, Sym) and value.arr and value.filt:
            only = SymMask(c)
            if not isinstance(key, SymMask) or set(value.filt) != set(_addfilt((), only)):
                raise Unsupported('writing a selection into an array')
        v = lift(value)
        if v is None:
            raise Unsupported('writing %r into an array' % (value,))
        if self.integer:
            v = truncated(v)
        idx = c.a[1] if c.k == 'cmp' and c.a[0] == '==' and c.a[2] is GEN else \
            c.a[2] if c.k == 'cmp' and c.a[0] == '==' and c.a[1] is GEN else None
        if idx is not None and any(a.k == 'sym' and a.a[0].startswith('#it') for a in tm.atoms_of(idx)):
            # one of the iterations standing for all of them: the other elements are not known
            old = self.t
            if old.k == 'uf' and old.a[0] == '#store':
                self.t = tm.store(GEN, *old.a[3:], idx, v)
            else:
                self.t = tm.store(GEN, old, idx, v)
            return
        self.t = tm.ite(c, v, self.t)

    def __abs__(self):
        from .shim import np_abs
        return np_abs(self)

    def __bool__(self):
        if self.arr:
            raise Unsupported('truth value of an array')
        return bool(SymBool(tm.cmp('!=', self.t, tm.ZERO)))

    def __float__(self):
        if self.t.k == 'num':
            return float(self.t.a[0])
        try:
            return float(tm.evaluate(self.t, _noenv))
        except Exception:
            raise Unsupported('float() of a symbolic value')

    def __int__(self):
        if self.t.k == 'num':
            return int(self.t.a[0])
        try:
            return int(tm.evaluate(self.t, _noenv))
        except Exception:
            raise Unsupported('int() of a symbolic value')

    def __index__(self):
        if self.t.k == 'num' and self.t.a[0].denominator == 1:
            return int(self.t.a[0])
        raise Unsupported('symbolic value used as an index')

    def __complex__(self):
        raise Unsupported('complex() of a symbolic value')

    def __format__(self, spec):
        return '<sym>'

    def __repr__(self):
        return 'Sym(%s%s)' % (tm.show(self.t, 8), '[:]' if self.arr else '')

    # --- complex parts
    @property
    def real(self):
        from .shim import np_real
        return np_real(self)

    @property
    def imag(self):
        from .shim import np_imag
        return np_imag(self)

    def conjugate(self):
        return wrap(tm.conj(self.t), self)
    conj = conjugate

    # --- array protocol
    @property
    def size(self):
        if not self.arr:
            return 1
        if len(self.filt) == 1 and self.filt[0].a[0] == '#grid':
            return Sym(self.filt[0].a[1])
        return Sym(tm.uf('#size', tm.ZERO, *bfilt(self.filt)))

    @property
    def shape(self):
        return (self.size,) if self.arr else ()

    @property
    def ndim(self):
        return 1 if self.arr else 0

    @property
    def T(self):
        return self

    def __len__(self):
        raise Unsupported('len() of a symbolic array')

    def __iter__(self):
        if not self.arr:
            raise TypeError('iteration over a symbolic scalar')
        return self._elements()

    def _elements(self):
        for i in range(2):
            if not self.size > i:
                return
            yield self[i]
        raise Unsupported('iteration over a symbolic array')

    def __getitem__(self, key):
        if isinstance(key, tuple):
            key = tuple(k for k in key if k is not Ellipsis)
            if len(key) == 0:
                return self
            if len(key) == 1:
                key = key[0]
        if key is Ellipsis:
            return self
        if not self.arr:
            if key == ():
                return self
            raise TypeError('symbolic scalar is not subscriptable')
        key = as_mask(key)
        if isinstance(key, SymMask):
            out = Sym(self.t, True, _addfilt(self.filt, key))
            out.integer = self.integer
            return out
        if isinstance(key, slice):
            if key == slice(None):
                return self
            lo = key.start if key.start is not None else 0
            hi = key.stop if key.stop is not None else 'end'
            if key.step not in (None, 1):
                raise Unsupported('strided slice')
            if isinstance(lo, int) and -5 <= lo < 0 and hi == 'end':
                from .shim import record
                if record.tails:
                    t = tm.subst(self.t, record.tails)
                    if not any(a is GEN for a in tm.atoms_of(t)):
                        out = Sym(t, True, self.filt)
                        out.integer = self.integer
                        return out
            # a slice of a selection depends on that selection; selecting from a slice does not
            f = tm.ufb('#slice', lift(lo), lift(hi) if hi != 'end' else 'end', *bfilt(self.filt))
            out = Sym(self.t, True, tuple(sorted(set(self.filt) | {f}, key=lambda x: x.id)))
            out.view = True
            out.integer = self.integer
            return out
        idx = index_term(key)
        if self.filt:
            if idx is GEN:
                return Sym(self.t)
            # element number idx of the selection: an index that satisfies the selection
            if len(self.filt) == 1 and self.filt[0].a[0] == '#grid' and idx.k == 'num':
                n = self.filt[0].a[1]
                return Sym(tm.subst(self.t, {GEN: tm.add(n, idx) if idx.a[0] < 0 else idx}))
            sel = slice_element(self.filt, idx)
            if sel is None:
                sel = tm.uf('#sel', idx, *bfilt(self.filt))
            return Sym(tm.subst(self.t, {GEN: sel}))
        if idx is not GEN:
            from .shim import record
            record.index(idx)
        return Sym(tm.subst(self.t, {GEN: idx}))

    def copy(self, *a, **k):
        out = Sym(self.t, self.arr, self.filt)
        out.integer = self.integer
        return out

    def ravel(self):
        return self
    squeeze = ravel

    def flatten(self):
        return self.copy()

    def astype(self, dtype, *a, **k):
        return cast(self, dtype)

    @property
    def dtype(self):
        if not self.arr:
            raise Unsupported('type of a symbolic value')
        return _np.dtype(int if self.integer else float)

    def item(self, *key):
        if self.arr and len(key) != 1:
            raise Unsupported('the only element of an array')
        return self[key[0]] if key and self.arr else self.copy()

    def take(self, key, *a, **k):
        return self[key]

    def sum(self, *a, **k):
        from .shim import np_sum
        return np_sum(self, *a, **k)

    def round(self, *a, **k):
        raise Unsupported('round() of a symbolic value')

    def tolist(self):
        raise Unsupported('list of a symbolic array')

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def min(self, *a, **k):
        from .shim import np_min
        return np_min(self, *a, **k)

    def max(self, *a, **k):
        from .shim import np_max
        return np_max(self, *a, **k)


def _noenv(t, memo):
    raise tm.EvalError('free')


def _reduced(name):
    def f(self, *a, **k):
        from . import shim
        return getattr(shim, 'np_' + name)(self, *a, **k)
    return f


class SVec:
    """A short vector whose entries are symbolic scalars or rows (a solution vector `y`)."""
    __array_priority__ = 1000
    __array_ufunc__ = None

    looped = False                    # one item for each of the two arbitrary iterations of a loop

    def __init__(self, items, integer=False):
        self.items = list(items)
        self.integer = integer

    @property
    def size(self):
        return len(self.items)

    @property
    def shape(self):
        return (len(self.items),)

    @property
    def ndim(self):
        return 1

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def copy(self):
        out = SVec([x.copy() if isinstance(x, (Sym, SymMask, SVec)) else x for x in self.items], self.integer)
        out.looped = self.looped
        return out

    def astype(self, dtype, *a, **k):
        return cast(self, dtype)

    def __getitem__(self, key):
        if isinstance(key, tuple):
            rest = tuple(k for k in key[1:] if k is not Ellipsis)
            first = key[0]
            if isinstance(first, slice):
                sub = SVec(self.items[first])
                if not rest:
                    return sub
                return SVec([x[rest[0] if len(rest) == 1 else rest] for x in sub.items])
            r = self.items[_ix(first)]
            for k in rest:
                r = r[k]
            return r
        if isinstance(key, slice):
            return SVec(self.items[key])
        if key is Ellipsis:
            return self
        if self.looped and isinstance(key, Sym) and key.t in ITERATIONS:
            return self.items[ITERATIONS.index(key.t)]
        return self.items[_ix(key)]

    def __setitem__(self, key, value):
        if isinstance(key, tuple):
            key = tuple(k for k in key if k is not Ellipsis)
            if len(key) == 1:
                key = key[0]
        if self.integer:
            def kept(v):
                if lift(v) is None:
                    raise Unsupported('writing %r into an array of integers' % (v,))
                return Sym(truncated(lift(v)))
        else:
            def kept(v):
                return v
        if key is Ellipsis or key == slice(None):
            for i in range(len(self.items)):
                self.items[i] = kept(value[i] if hasattr(value, '__len__') else value)
            return
        self.items[_ix(key)] = kept(value)

    def _map(self, other, f):
        if isinstance(other, (SVec, list, tuple, _np.ndarray)):
            return SVec([f(a, b) for a, b in zip(self.items, other)])
        return SVec([f(a, other) for a in self.items])

    def __add__(self, o): return self._map(o, lambda a, b: a + b)
    def __radd__(self, o): return self._map(o, lambda a, b: b + a)
    def __sub__(self, o): return self._map(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._map(o, lambda a, b: b - a)
    def __mul__(self, o): return self._map(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._map(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._map(o, lambda a, b: a / b)
    def __pow__(self, o): return self._map(o, lambda a, b: a ** b)
    def __rtruediv__(self, o): return self._map(o, lambda a, b: b / a)
    def __mod__(self, o): return self._map(o, lambda a, b: a % b)
    def __rpow__(self, o): return self._map(o, lambda a, b: b ** a)
    def __abs__(self): return SVec([abs(a) for a in self.items])
    def __neg__(self): return SVec([-a for a in self.items])

    def _inplace(self, o):
        if not isinstance(o, SVec):
            return o
        self.items[:] = o.items
        return self

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)

    def __eq__(self, o): return self._map(o, lambda a, b: a == b)
    def __ne__(self, o): return self._map(o, lambda a, b: a != b)
    def __lt__(self, o): return self._map(o, lambda a, b: a < b)
    def __le__(self, o): return self._map(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._map(o, lambda a, b: a > b)
    def __ge__(self, o): return self._map(o, lambda a, b: a >= b)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        if len(self.items) == 1:
            return bool(self.items[0])
        raise ValueError('The truth value of an empty array or of one with more than one element is ambiguous.')

    def any(self, *a, **k):
        return any(bool(e) for e in self.items)

    def all(self, *a, **k):
        return all(bool(e) for e in self.items)

    def item(self, *key):
        if not key and len(self.items) != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return self.items[_ix(key[0]) if key else 0]

    min, max, sum, prod, mean = _reduced('min'), _reduced('max'), _reduced('sum'), _reduced('prod'), _reduced('mean')

    def tolist(self):
        return [e.tolist() if isinstance(e, SVec) else e for e in self.items]



def _ix(k):
    if isinstance(k, Sym):
        return k.__index__()
    return int(k)


numbers.Number.register(Sym)
