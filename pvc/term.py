"""Hash-consed terms over the reals (and over I with I**2 = -1), boolean terms, derivatives,
and high-precision evaluation."""
from fractions import Fraction
import mpmath
from mpmath import mp

mp.dps = 40

_table = {}


class T:
    """Immutable, interned term.  `k` is the kind, `a` the arguments."""
    __slots__ = ('k', 'a', 'id', '__weakref__')

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        raise TypeError("terms are not picklable")


def _mk(k, *a):
    key = (k,) + tuple(x.id if type(x) is T else ('c', x) for x in a)
    t = _table.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        t.id = len(_table)
        _table[key] = t
    return t


def num(x):
    if isinstance(x, Fraction):
        return _mk('num', x)
    if isinstance(x, bool):
        return _mk('num', Fraction(int(x)))
    if isinstance(x, int):
        return _mk('num', Fraction(x))
    if isinstance(x, float):
        return _mk('num', Fraction(x))
    raise TypeError(type(x))


ZERO = num(0)
ONE = num(1)
MONE = num(-1)
IMAG = _mk('I')
PI = _mk('sym', 'pi')
EULER = _mk('sym', 'euler_gamma')
NAN = _mk('sym', 'nan')
INF = _mk('sym', 'inf')
CONSTS = {'pi': lambda: mp.pi, 'euler_gamma': lambda: mp.euler, 'nan': lambda: mp.nan,
          'inf': lambda: mp.inf}


def sym(name):
    return _mk('sym', name)


def add(*args):
    const = Fraction(0)
    coef = {}
    order = []
    stack = list(reversed(args))
    while stack:
        t = stack.pop()
        if t.k == 'num':
            const += t.a[0]
        elif t.k == 'add':
            stack.extend(reversed(t.a))
        else:
            c, b = Fraction(1), t
            if t.k == 'mul' and t.a[0].k == 'num':
                c = t.a[0].a[0]
                rest = t.a[1:]
                b = rest[0] if len(rest) == 1 else _mk('mul', *rest)
            if b.id not in coef:
                order.append(b)
                coef[b.id] = c
            else:
                coef[b.id] += c
    out = []
    for b in order:
        c = coef[b.id]
        if c == 0:
            continue
        if c == 1:
            out.append(b)
        else:
            out.append(_mk('mul', num(c), *(b.a if b.k == 'mul' else (b,))))
    if const != 0:
        out.append(num(const))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    return _mk('add', *out)


def mul(*args):
    const = Fraction(1)
    expo = {}
    order = []
    stack = list(reversed(args))
    nimag = 0
    while stack:
        t = stack.pop()
        if t.k == 'num':
            const *= t.a[0]
        elif t.k == 'mul':
            stack.extend(reversed(t.a))
        elif t.k == 'I':
            nimag += 1
        else:
            b, e = t, Fraction(1)
            if t.k == 'pow' and t.a[1].k == 'num' and t.a[1].a[0].denominator == 1:
                b, e = t.a[0], t.a[1].a[0]
            if b.id not in expo:
                order.append(b)
                expo[b.id] = e
            else:
                expo[b.id] += e
    if const == 0:
        return ZERO
    nimag %= 4
    if nimag >= 2:
        const = -const
        nimag -= 2
    out = []
    for b in order:
        e = expo[b.id]
        if e == 0:
            continue
        out.append(b if e == 1 else _mk('pow', b, num(e)))
    if nimag:
        out.insert(0, IMAG)
    if const != 1 or not out:
        out.insert(0, num(const))
    if len(out) == 1:
        return out[0]
    return _mk('mul', *out)


def neg(a):
    return mul(MONE, a)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    return mul(a, power(b, MONE))


def power(b, e):
    if e.k == 'num':
        ev = e.a[0]
        if ev == 0:
            return ONE
        if ev == 1:
            return b
        if b.k == 'num':
            bv = b.a[0]
            if ev.denominator == 1:
                if bv == 0 and ev < 0:
                    return _mk('pow', b, e)
                return num(bv ** int(ev))
            if bv == 0 and ev > 0:
                return ZERO
            if bv == 1:
                return ONE
            r = _exact_root(bv, ev)
            if r is not None:
                return num(r)
        if b.k == 'I' and ev.denominator == 1:
            return (ONE, IMAG, MONE, neg(IMAG))[int(ev) % 4]
        if b.k == 'pow' and ev.denominator == 1 and b.a[1].k == 'num':
            return power(b.a[0], num(b.a[1].a[0] * ev))
        if b.k == 'mul' and ev.denominator == 1:
            return mul(*[power(x, e) for x in b.a])
    return _mk('pow', b, e)


def _iroot(n, k):
    if n < 0:
        return None
    r = round(n ** (1.0 / k)) if n < 1 << 900 else None
    if r is None:
        return None
    for c in (r - 1, r, r + 1):
        if c >= 0 and c ** k == n:
            return c
    return None


def _exact_root(v, e):
    if v < 0:
        return None
    a, b = _iroot(v.numerator, e.denominator), _iroot(v.denominator, e.denominator)
    if a is None or b is None:
        return None
    if a == 0 and e < 0:
        return None
    return Fraction(a, b) ** e.numerator


def fn(name, *args):
    """Application of a named function; known elementary ones get light simplification."""
    if len(args) == 1 and type(args[0]) is T:
        a = args[0]
        if name == 'exp' and a is ZERO:
            return ONE
        if name == 'log' and a is ONE:
            return ZERO
        if name == 'log' and a.k == 'fn' and a.a[0] == 'exp' and not has_imag(a):
            return a.a[1]
        if name in ('sin', 'sinh', 'tan', 'tanh', 'arctan', 'arcsinh', 'arctanh', 'arcsin') and a is ZERO:
            return ZERO
        if name in ('cos', 'cosh') and a is ZERO:
            return ONE
        if name == 'sqrt':
            return power(a, num(Fraction(1, 2)))
        if name in ('abs', 'sign') and a.k == 'num':
            v = a.a[0]
            return num(abs(v)) if name == 'abs' else num((v > 0) - (v < 0))
    return _mk('fn', name, *args)


def uf(name, *args, order=None):
    """Uninterpreted real function `name` of `args`, differentiated `order[i]` times in arg i."""
    order = tuple(order) if order is not None else (0,) * len(args)
    return _mk('uf', name, order, *args)


def ite(c, a, b):
    """a where c holds, else b."""
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    return uf('#ite', c, a, b)


def store(i, *args):
    """Element i of an array (fill, index1, value1, index2, value2, ...) written in a loop."""
    for k in range(len(args) - 2, 0, -2):
        if args[k] is i:
            return args[k + 1]
    return uf('#store', i, *args)


def elt(name, index):
    """Element of array `name` at index term (a T, an int, or the generic index 'i')."""
    return _mk('elt', name, index)


# ---------------------------------------------------------------- booleans

TRUE = _mk('true')
FALSE = _mk('false')


def cmp(op, a, b):
    if op == '>':
        return cmp('<', b, a)
    if op == '>=':
        return cmp('<=', b, a)
    if op == '!=':
        return bnot(cmp('==', a, b))
    if a is NAN or b is NAN:
        return FALSE
    if a is INF and b is not INF:
        return FALSE
    if b is INF and a is not INF:
        return TRUE if op in ('<', '<=') else FALSE
    if a is ZERO and b.k == 'fn' and b.a[0] == 'exp' and op != '==':
        return TRUE
    d = sub(a, b)
    if d.k == 'num':
        v = d.a[0]
        return TRUE if {'<': v < 0, '<=': v <= 0, '==': v == 0}[op] else FALSE
    return _mk('cmp', op, a, b)


def band(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.k == 'and':
            out.extend(x.a)
        else:
            out.append(x)
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    if not seen:
        return TRUE
    return seen[0] if len(seen) == 1 else _mk('and', *seen)


def bor(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.k == 'or':
            out.extend(x.a)
        else:
            out.append(x)
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    if not seen:
        return FALSE
    return seen[0] if len(seen) == 1 else _mk('or', *seen)


def bnot(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.k == 'not':
        return x.a[0]
    if x.k == 'cmp' and x.a[0] == '<':
        return cmp('<=', x.a[2], x.a[1])
    if x.k == 'cmp' and x.a[0] == '<=':
        return cmp('<', x.a[2], x.a[1])
    if x.k == 'and':
        return bor(*[bnot(y) for y in x.a])
    if x.k == 'or':
        return band(*[bnot(y) for y in x.a])
    return _mk('not', x)


def ufb(name, *args):
    """Uninterpreted boolean."""
    return _mk('ufb', name, *args)


def children(t):
    return [x for x in t.a if type(x) is T]


# ---------------------------------------------------------------- substitution

def subst(t, mapping, memo=None):
    """Replace terms (keys of `mapping`, compared by identity) throughout `t`."""
    if memo is None:
        memo = {}
    m = mapping.get(t)
    if m is not None:
        return m
    r = memo.get(t.id)
    if r is not None:
        return r
    ch = [subst(x, mapping, memo) if type(x) is T else x for x in t.a]
    if all(x is y for x, y in zip(ch, t.a)):
        r = t
    else:
        r = rebuild(t, ch)
    memo[t.id] = r
    return r


def rebuild(t, ch):
    k = t.k
    if k == 'add':
        return add(*ch)
    if k == 'mul':
        return mul(*ch)
    if k == 'pow':
        return power(*ch)
    if k == 'fn':
        return fn(*ch)
    if k == 'cmp':
        return cmp(*ch)
    if k == 'and':
        return band(*ch)
    if k == 'or':
        return bor(*ch)
    if k == 'not':
        return bnot(*ch)
    if k == 'uf' and ch[0] == '#ite':
        return ite(*ch[2:])
    if k == 'uf' and ch[0] == '#store':
        return store(*ch[2:])
    return _mk(k, *ch)


def atoms_of(t, kinds=('sym', 'uf', 'elt'), seen=None, out=None):
    if seen is None:
        seen, out = set(), []
    if t.id in seen:
        return out
    seen.add(t.id)
    if t.k in kinds:
        out.append(t)
    for x in t.a:
        if type(x) is T:
            atoms_of(x, kinds, seen, out)
    return out


def conj(t):
    """Complex conjugate, all symbols being real."""
    return subst(t, {IMAG: neg(IMAG)})


def has_imag(t, memo=None):
    return bool(atoms_of(t, kinds=('I',)))


# ---------------------------------------------------------------- derivatives

def diff(t, dots, memo=None):
    """Directional derivative: `dots` maps terms (symbols, elements) to their rate of change."""
    if memo is None:
        memo = {}
    d = dots.get(t)
    if d is not None:
        return d
    r = memo.get(t.id)
    if r is not None:
        return r
    r = _diff(t, dots, memo)
    memo[t.id] = r
    return r


def _diff(t, dots, memo):
    k = t.k
    if k in ('num', 'sym', 'I', 'elt'):
        return ZERO
    if k == 'add':
        return add(*[diff(x, dots, memo) for x in t.a])
    if k == 'mul':
        out = []
        for i, x in enumerate(t.a):
            dx = diff(x, dots, memo)
            if dx is not ZERO:
                out.append(mul(*t.a[:i], dx, *t.a[i+1:]))
        return add(*out) if out else ZERO
    if k == 'pow':
        b, e = t.a
        db, de = diff(b, dots, memo), diff(e, dots, memo)
        r = ZERO
        if db is not ZERO:
            r = add(r, mul(e, power(b, sub(e, ONE)), db))
        if de is not ZERO:
            r = add(r, mul(t, fn('log', b), de))
        return r
    if k == 'uf':
        name, order, args = t.a[0], t.a[1], t.a[2:]
        r = ZERO
        for i, x in enumerate(args):
            dx = diff(x, dots, memo) if type(x) is T else ZERO
            if dx is not ZERO:
                o = tuple(n + (j == i) for j, n in enumerate(order))
                r = add(r, mul(uf(name, *args, order=o), dx))
        return r
    if k == 'fn':
        name, args = t.a[0], t.a[1:]
        u = args[0]
        du = diff(u, dots, memo)
        if du is ZERO and all(type(x) is not T or diff(x, dots, memo) is ZERO for x in args[1:]):
            return ZERO
        two = num(2)
        if name == 'exp':
            g = t
        elif name == 'log':
            g = power(u, MONE)
        elif name == 'sin':
            g = fn('cos', u)
        elif name == 'cos':
            g = neg(fn('sin', u))
        elif name == 'tan':
            g = add(ONE, power(t, two))
        elif name == 'sinh':
            g = fn('cosh', u)
        elif name == 'cosh':
            g = fn('sinh', u)
        elif name == 'tanh':
            g = sub(ONE, power(t, two))
        elif name == 'arctan':
            g = power(add(ONE, power(u, two)), MONE)
        elif name == 'arcsinh':
            g = power(add(ONE, power(u, two)), num(Fraction(-1, 2)))
        elif name == 'arccosh':
            g = power(sub(power(u, two), ONE), num(Fraction(-1, 2)))
        elif name == 'arctanh':
            g = power(sub(ONE, power(u, two)), MONE)
        elif name == 'arccos':
            g = neg(power(sub(ONE, power(u, two)), num(Fraction(-1, 2))))
        elif name == 'arcsin':
            g = power(sub(ONE, power(u, two)), num(Fraction(-1, 2)))
        else:
            raise NotImplementedError("derivative of %s" % name)
        return mul(g, du)
    if all(diff(x, dots, memo) is ZERO for x in children(t)):
        return ZERO            # a condition (selection) that does not change
    raise NotImplementedError("derivative of kind %s" % k)


# ---------------------------------------------------------------- numeric evaluation

class EvalError(Exception):
    pass


def evaluate(t, env, memo=None):
    """Evaluate to mpmath number (or python bool).  `env(t)` supplies sym, uf, elt, ufb atoms."""
    if memo is None:
        memo = {}
    if t.id in memo:
        return memo[t.id]
    r = _eval(t, env, memo)
    memo[t.id] = r
    return r


def _eval(t, env, memo):
    k = t.k
    if k == 'num':
        return mp.mpf(t.a[0].numerator) / t.a[0].denominator
    if k == 'I':
        return mp.mpc(0, 1)
    if k == 'sym':
        c = CONSTS.get(t.a[0])
        return c() if c is not None else env(t, memo)
    if k in ('uf', 'elt', 'ufb'):
        return env(t, memo)
    if k == 'add':
        s = mp.mpf(0)
        for x in t.a:
            s = s + evaluate(x, env, memo)
        return s
    if k == 'mul':
        s = mp.mpf(1)
        for x in t.a:
            s = s * evaluate(x, env, memo)
        return s
    if k == 'pow':
        b, e = evaluate(t.a[0], env, memo), evaluate(t.a[1], env, memo)
        if b == 0 and e < 0:
            raise EvalError('division by zero')
        if e == int(mp.re(e)) if mp.isfinite(e) else False:
            return b ** int(mp.re(e))
        if isinstance(b, mp.mpf) and b < 0:
            if e == mp.mpf(1) / 2:
                return mp.mpc(0, 1) * mp.sqrt(-b)
            raise EvalError('negative base')
        return mp.power(b, e)
    if k == 'fn':
        name = t.a[0]
        a = [evaluate(x, env, memo) if type(x) is T else x for x in t.a[1:]]
        return _evalfn(name, a)
    if k == 'cmp':
        a, b = evaluate(t.a[1], env, memo), evaluate(t.a[2], env, memo)
        if isinstance(a, mp.mpc) or isinstance(b, mp.mpc):
            if abs(mp.im(a)) > 1e-25 or abs(mp.im(b)) > 1e-25:
                raise EvalError('complex comparison')
            a, b = mp.re(a), mp.re(b)
        op = t.a[0]
        tol = mp.mpf(10) ** -28 * max(1, abs(a), abs(b)) if mp.isfinite(a) and mp.isfinite(b) else 0
        if abs(a - b) <= tol:
            return op in ('<=', '==')
        return a < b if op in ('<', '<=') else False
    if k == 'true':
        return True
    if k == 'false':
        return False
    if k == 'and':
        return all(evaluate(x, env, memo) for x in t.a)
    if k == 'or':
        return any(evaluate(x, env, memo) for x in t.a)
    if k == 'not':
        return not evaluate(t.a[0], env, memo)
    raise EvalError(k)


def _evalfn(name, a):
    x = a[0]
    try:
        if name == 'exp':
            if mp.re(x) > 5000:
                raise EvalError('overflow')
            return mp.exp(x)
        if name == 'log':
            if x == 0 or (isinstance(x, mp.mpf) and x < 0):
                raise EvalError('log domain')
            return mp.log(x)
        f = {'sin': mp.sin, 'cos': mp.cos, 'tan': mp.tan, 'sinh': mp.sinh, 'cosh': mp.cosh,
             'tanh': mp.tanh, 'arctan': mp.atan, 'arcsinh': mp.asinh, 'arccosh': mp.acosh,
             'arctanh': mp.atanh, 'arccos': mp.acos, 'arcsin': mp.asin,
             'zeta': mp.zeta}.get(name)
        if f is not None:
            r = f(x)
            if isinstance(r, mp.mpc) and not isinstance(x, mp.mpc):
                raise EvalError('domain of ' + name)
            return r
        if name == 'abs':
            return abs(x)
        if name == 'sign':
            return mp.sign(x)
        if name == 'floor':
            return mp.floor(x)
        if name == 'trunc':
            return mp.floor(x) if x >= 0 else mp.ceil(x)
        if name == 'lambertw':
            r = mp.lambertw(x, int(a[1]))
            if abs(mp.im(r)) < 1e-25:
                return mp.re(r)
            raise EvalError('lambertw domain')
    except (ZeroDivisionError, ValueError, OverflowError) as err:
        raise EvalError(str(err))
    raise EvalError('function ' + name)


# ---------------------------------------------------------------- printing

def show(t, depth=60):
    if depth <= 0:
        return '...'
    k = t.k
    s = lambda x: show(x, depth - 1) if type(x) is T else str(x)
    if k == 'num':
        return str(t.a[0])
    if k == 'I':
        return 'I'
    if k == 'sym':
        return t.a[0]
    if k == 'add':
        return '(' + ' + '.join(s(x) for x in t.a) + ')'
    if k == 'mul':
        return '*'.join(s(x) for x in t.a)
    if k == 'pow':
        return '%s**%s' % (s(t.a[0]) if t.a[0].k in ('sym', 'num', 'fn', 'add') else '(' + s(t.a[0]) + ')',
                           s(t.a[1]) if t.a[1].k == 'sym' else '(' + s(t.a[1]) + ')')
    if k == 'fn':
        return '%s(%s)' % (t.a[0], ', '.join(s(x) for x in t.a[1:]))
    if k == 'uf':
        o = t.a[1]
        return '%s%s(%s)' % (t.a[0], "" if not any(o) else str(list(o)), ', '.join(s(x) for x in t.a[2:]))
    if k == 'elt':
        return '%s[%s]' % (t.a[0], s(t.a[1]))
    if k == 'cmp':
        return '%s %s %s' % (s(t.a[1]), t.a[0], s(t.a[2]))
    if k in ('and', 'or'):
        return '(' + (' %s ' % k).join(s(x) for x in t.a) + ')'
    if k == 'not':
        return 'not (%s)' % s(t.a[0])
    if k == 'ufb':
        return '%s(%s)' % (t.a[0], ', '.join(s(x) for x in t.a[1:]))
    return k
